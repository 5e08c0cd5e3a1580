"""C26: programs of random headers, orders, translation units and configurations.

A program is some translation units, each with a random sequence of headers of
the library (and of the standard library), and uses of what its headers
declare.  Every use prints a digest of its results.  The digest of a use with a
seed must be the same in every program and configuration, and every program
must compile and link.  A failure is shrunk by removing translation units,
headers, uses and flags.
"""
import os, random, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor

INCLUDES = {   # what the documentation of the interface lets a program rely on: nothing but the header itself and those it needs
    'types': [], 'type_traits': ['types'], 'functional': [], 'numeric': [], 'utility': ['types'], 'algorithm': ['types', 'type_traits'],
    'array': ['types'], 'vector': ['types'], 'fixed_vector': ['types'], 'forward_list': ['types', 'slist_node'], 'backward_list': ['types', 'slist_node'],
    'lazy_queue': ['types', 'slist_node'], 'list': ['types'], 'rbtree': ['types'], 'map': ['types', 'functional', 'utility', 'rbtree'],
    'set': ['types', 'functional', 'utility', 'rbtree'], 'vector_map': ['utility', 'functional', 'vector', 'types'],
    'sorted_vector_map': ['types', 'utility', 'functional'], 'bitset': ['types'], 'slist_node': ['types'],
    'ttl': ['types', 'type_traits', 'functional', 'utility', 'algorithm', 'array', 'vector', 'fixed_vector', 'forward_list', 'backward_list', 'lazy_queue',
            'list', 'map', 'set', 'vector_map', 'sorted_vector_map', 'bitset', 'slist_node', 'rbtree'],
}
HEADERS = sorted(INCLUDES)
STD = ['string.h', 'stdlib.h', 'new', 'utility', 'algorithm', 'vector', 'map', 'string', 'limits.h', 'functional', 'iterator', 'numeric']

PRELUDE = '''
#ifndef GEN_PRELUDE
#define GEN_PRELUDE
extern "C" int printf(const char *, ...);
struct Own
{
   int v;
   Own(int x = 0): v(x) {}
   Own(const Own &o): v(o.v) {}
   Own &operator=(const Own &o) { v = o.v; return *this; }
   ~Own() {}
   bool operator==(const Own &o) const { return v == o.v; }
   bool operator!=(const Own &o) const { return v != o.v; }
   bool operator<(const Own &o) const { return v < o.v; }
   bool operator>(const Own &o) const { return v > o.v; }
};
namespace
{
   inline int val(const Own &o) { return o.v; }
   inline int val(int x) { return x; }
   struct Gen
   {
      unsigned s;
      Gen(unsigned x): s(x * 2654435761u + 12345u) {}
      unsigned operator()(unsigned n) { s = s * 1664525u + 1013904223u; return (s >> 8) % n; }
   };
   struct Dig
   {
      unsigned h;
      Dig(): h(7) {}
      void operator()(unsigned x) { h = (h ^ x) * 16777619u + 1u; }
      template<class I> void range(I b, I e) { unsigned n = 0; for (; b != e; ++b, ++n) (*this)((unsigned)val(*b)); (*this)(n); }
   };
   struct Lt { template<class T> bool operator()(const T &a, const T &b) const { return a < b; } };
   struct Odd { template<class T> bool operator()(const T &a) const { return (val(a) & 1) != 0; } };
   struct Gr { bool operator()(const int &a, const int &b) const { return b < a; } };
   struct Inc { template<class T> T operator()(const T &a) const { return T(val(a) + 1); } };
}
#endif
'''

# (name, headers it needs, body); @E is the element type.  The body has a Gen g, a Dig d and the size n.
SEQ_OPS = '''%(T)s<@E%(N)s> c, e;
   for (unsigned i = 0; i < n; ++i) { @E x((int)g(20)); if (g(2)) c.push_back(x); else { c.insert(c.begin() + g(c.size() + 1), x); } if (c.size() > 4 && g(4) == 0) c.erase(c.begin() + g(c.size())); }
   e = c; d.range(c.begin(), c.end()); d.range(e.cbegin(), e.cend()); d(c.empty()); d(c.size());
   if (!c.empty()) { d(val(c.front())); d(val(c.back())); e.pop_back(); e.resize(3, @E(9)); d.range(e.begin(), e.end()); }
   e.assign(2u, @E(5)); e.insert(e.begin(), c.begin(), c.begin() + c.size() / 2); d.range(e.begin(), e.end()); e.clear(); d(e.size());'''
SLIST_OPS = '''ttl::%(T)s<@E> c, e;
   for (unsigned i = 0; i < n; ++i) { @E x((int)g(20)); if (g(2)) c.push_front(x); else c.insert_after(c.before_begin(), x); }
   e = c; d.range(c.begin(), c.end()); d.range(e.cbegin(), e.cend()); d(c.empty()); if (!c.empty()) { d(val(c.front())); e.pop_front(); }
   e.insert_after(e.before_begin(), c.begin(), c.end()); d.range(e.begin(), e.end()); e.reverse(); d.range(e.begin(), e.end());
   %(S)se.clear(); d(e.empty());'''
TREE_OPS = '''for (unsigned i = 0; i < n * 3; ++i) { int k = g(15); switch (g(3)) { case 0: d(c.erase(k)); break; case 1: d(c.count(k)); d(c.find(k) == c.end()); break; default: d(c.insert(%(V)s).second); } }
   d.range%(R)s; d(c.lower_bound(7) == c.end()); d(c.upper_bound(7) == c.end()); e = c; c.clear(); d(c.empty()); d(e.begin() == e.end());'''
USES = [
    ('types', ['types'], 'ttl::size_t a = n; ttl::ptrdiff_t b = -(int)n; d((unsigned)a); d((unsigned)b); d(sizeof(ttl::size_t)); d(((ttl::size_t)-1) > 0);'),
    ('functional', ['functional'], '@E a(g(3)), b(g(3)); d(ttl::less<@E>()(a, b)); d(ttl::greater<@E>()(a, b)); d(ttl::equal_to<@E>()(a, b)); d(ttl::not_equal_to<@E>()(a, b));'),
    ('numeric', ['numeric'], 'int a[50]; ttl::iota(a, a + n, (int)g(9)); d(ttl::accumulate(a, a + n, 3)); if (n) d(a[n - 1]);'),
    ('swap', ['utility'], '@E a(g(9)), b(g(9)); ttl::swap(a, b); d(val(a)); d(val(b)); ttl::pair<@E, int> p(a, 3), q = ttl::make_pair(b, 4); p.swap(q); d(val(p.first)); d(q.second); d(p == q); d(p != q);'),
    ('countof', ['utility'], 'static int a[7]; static @E b[3]; char c[countof(a)]; d(countof(a)); d(countof(b)); d(sizeof(c)); d(sizeof(a) / sizeof(*a) == countof(a));'),
    ('ttl_countof', ['utility'], 'static int a[11]; d(ttl_countof(a));'),
    ('select', ['utility'], 'typedef ttl::pair<const int, @E> P; P p(n, @E(g(9))); const P &q = p; d(ttl::select_first<P>()(q)); d(val(ttl::select_second<P>()(p))); d(val(ttl::select_same<P>()(p).second));'),
    ('distance', ['utility'], 'int a[50]; int *p = a; ttl::advance(p, n); d(ttl::distance(a + 0, p));'),
    ('move', ['utility', 'type_traits'], '@E a(g(9)); @E b(ttl::move(a)); d(val(b));'),
    ('traits', ['type_traits'], 'd(ttl::is_same<@E, int>::value); d(ttl::is_const<const @E>::value); d(ttl::is_integral<unsigned long long>::value); d(ttl::is_pointer<int *const>::value); '
     'd(ttl::is_signed<signed char>::value); d(ttl::is_same<ttl::remove_cv<const volatile @E>::type, @E>::value); d(ttl::is_array<int[3]>::value); d(ttl::is_same<ttl::remove_reference<int &>::type, int>::value);'),
    ('alg_read', ['algorithm'], '@E a[50], b[50]; for (unsigned i = 0; i < n; ++i) { a[i] = @E(g(4)); b[i] = @E(g(4)); } const @E x(g(4)); d(ttl::find(a, a + n, x) - a); d(ttl::find_if(a, a + n, Odd()) - a); '
     'd(ttl::count(a, a + n, x)); d(ttl::count_if(a, a + n, Odd())); d(ttl::equal(a, a + n, b)); d(ttl::search(a, a + n, b, b + (n < 2 ? n : 2)) - a); d(ttl::search_n(a, a + n, 2, x) - a); d(ttl::all_of(a, a + n, Odd())); '
     'd(ttl::adjacent_find(a, a + n) - a);'),
    ('alg_mismatch', ['algorithm', 'utility'], '@E a[50], b[50]; for (unsigned i = 0; i < n; ++i) { a[i] = b[i] = @E(g(4)); } if (n) b[g(n)] = @E(9); d(ttl::mismatch(a, a + n, b).first - a); d(ttl::mismatch(a, a + n, b, b + n).second - b);'),
    ('alg_write', ['algorithm'], '@E a[50], b[101]; for (unsigned i = 0; i < n; ++i) a[i] = @E(g(4)); d(ttl::copy(a, a + n, b) - b); d.range(b, b + n); d(ttl::copy_if(a, a + n, b, Odd()) - b); d(ttl::transform(a, a + n, b, Inc()) - b); d.range(b, b + n); '
     'ttl::fill(b, b + n, @E(3)); d.range(b, b + n); ttl::fill_n(b, n / 2, @E(4)); d.range(b, b + n); ttl::replace(a, a + n, @E(1), @E(2)); d.range(a, a + n); d(ttl::remove_copy(a, a + n, b, @E(2)) - b);'),
    ('alg_move', ['algorithm', 'utility'], '@E a[50]; for (unsigned i = 0; i < n; ++i) a[i] = @E(g(4)); ttl::reverse(a, a + n); d.range(a, a + n); if (n > 1) ttl::iter_swap(a, a + n - 1); d.range(a, a + n); '
     '@E *e = ttl::remove(a, a + n, @E(2)); d.range(a, e); e = ttl::remove_if(a, e, Odd()); d.range(a, e); if (n) { ttl::swap_ranges(a, a + n / 2, a + n - n / 2); } d.range(a, e);'),
    ('alg_order', ['algorithm'], '@E a[50] = {}, b[50] = {}, c[101]; int v = 0, w = 0; for (unsigned i = 0; i < n; ++i) { a[i] = @E(v += g(3)); b[i] = @E(w += g(3)); } const @E x(g(20)); '
     'd(ttl::lower_bound(a, a + n, x) - a); d(ttl::upper_bound(a, a + n, x) - a); d(ttl::binary_search(a, a + n, x)); d(ttl::merge(a, a + n, b, b + n, c) - c); d.range(c, c + 2 * n); d(ttl::is_sorted(a, a + n)); '
     'd(ttl::max_element(a, a + n) - a); d(ttl::min_element(a, a + n) - a); d(val(ttl::max(a[0], b[0]))); d(val(ttl::min(a[0], b[0])));'),
    ('array', ['array'], 'ttl::array<@E, 5> a = {{ @E(1), @E(2), @E(3), @E(4), @E(5) }}; a[g(5)] = @E(g(30)); d.range(a.begin(), a.end()); d(a.size()); d(val(a.front())); d(val(a.back())); d(val(*a.data())); d(a.empty());'),
    ('array_alg', ['array', 'algorithm', 'utility'], 'ttl::array<@E, 5> a = {{ @E(1), @E(2), @E(3), @E(4), @E(5) }}, b; b.fill(@E(7)); d(a == b); d(a != b); a.swap(b); d.range(a.begin(), a.end()); d.range(b.begin(), b.end());'),
    ('vector', ['vector'], SEQ_OPS % dict(T='ttl::vector', N='')),
    ('vector_cmp', ['vector', 'algorithm', 'utility'], 'ttl::vector<@E> a, b; for (unsigned i = 0; i < n; ++i) { a.push_back(@E(g(2))); b.push_back(@E(g(2))); } d(a == b); d(a != b); a = b; d(a == b); a.reserve(80); a.swap(b); d(a == b); d.range(a.begin(), a.end());'),
    ('vector_swap', ['vector', 'utility'], 'ttl::vector<@E> a(n, @E(4)), b; b.push_back(@E(1)); a.swap(b); d.range(a.begin(), a.end()); d.range(b.begin(), b.end()); d(b.capacity() >= n);'),
    ('fixed_vector', ['fixed_vector'], SEQ_OPS % dict(T='ttl::fixed_vector', N=', 64')),
    ('fixed_vector_alg', ['fixed_vector', 'algorithm', 'utility'], 'ttl::fixed_vector<@E, 60> a, b; for (unsigned i = 0; i < n; ++i) { a.push_back(@E(g(2))); if (g(2)) b.push_back(@E(g(2))); } d(a == b); d(a != b); a.swap(b); d.range(a.begin(), a.end()); d.range(b.begin(), b.end()); d(a.capacity());'),
    ('forward_list', ['forward_list'], SLIST_OPS % dict(T='forward_list', S='e.splice_after(e.before_begin(), c); d.range(e.begin(), e.end()); d.range(c.begin(), c.end()); ')),
    ('backward_list', ['backward_list'], SLIST_OPS % dict(T='backward_list', S='') + ' e.push_back(@E(3)); d(val(e.back()));'),
    ('slist_swap', ['forward_list', 'backward_list', 'utility'], 'ttl::forward_list<@E> a, b; ttl::backward_list<@E> p, q; for (unsigned i = 0; i < n; ++i) { a.push_front(@E(i)); p.push_back(@E(i)); } a.swap(b); p.swap(q); p.push_back(@E(2)); '
     'd.range(a.begin(), a.end()); d.range(b.begin(), b.end()); d.range(p.begin(), p.end()); d.range(q.begin(), q.end());'),
    ('slist_cmp', ['forward_list', 'backward_list', 'algorithm'], 'ttl::forward_list<@E> a, b; ttl::backward_list<@E> p, q; for (unsigned i = 0; i < n; ++i) { a.push_front(@E(i)); p.push_back(@E(i)); } b = a; d(a == b); d(p == q); b.push_front(@E(1)); d(a != b); d(p != q);'),
    ('lazy_queue', ['lazy_queue'], 'ttl::lazy_queue<@E> c; for (unsigned i = 0; i < n * 3; ++i) { if (g(3) && !c.empty()) { d(val(c.front())); c.pop_front(); } else if (g(2)) c.push_back(@E(g(20))); else c.push_front(@E(g(20))); } '
     'd.range(c.begin(), c.end()); ttl::lazy_queue<@E> e(c); d.range(e.cbegin(), e.cend()); c.clear(); d(c.empty()); e.cleanup(); d.range(e.begin(), e.end());'),
    ('lazy_queue_swap', ['lazy_queue', 'utility'], 'ttl::lazy_queue<@E> a, b; for (unsigned i = 0; i < n; ++i) a.push_back(@E(i)); a.swap(b); a.push_back(@E(1)); b.push_back(@E(2)); d.range(a.begin(), a.end()); d.range(b.begin(), b.end());'),
    ('list', ['list'], 'ttl::list<@E> c, e; for (unsigned i = 0; i < n; ++i) { @E x((int)g(20)); if (g(2)) c.push_back(x); else c.push_front(x); if (g(4) == 0) c.erase(c.begin()); } e = c; d.range(c.begin(), c.end()); d.range(e.cbegin(), e.cend()); '
     'd(c.size()); if (!c.empty()) { d(val(c.front())); d(val(c.back())); e.pop_back(); } e.insert(e.end(), c.begin(), c.end()); e.reverse(); e.remove(@E(3)); e.remove_if(Odd()); d.range(e.begin(), e.end()); e.splice(e.begin(), c); d.range(e.begin(), e.end()); '
     'e.unique(); d.range(e.begin(), e.end()); e.resize(4, @E(1)); d.range(e.begin(), e.end()); e.swap(c); d.range(c.begin(), c.end()); c.clear(); d(c.empty());'),
    ('list_cmp', ['list', 'algorithm'], 'ttl::list<@E> a, b; for (unsigned i = 0; i < n; ++i) a.push_back(@E(i)); d(a == b); b = a; d(a == b); d(a != b);'),
    ('map', ['map'], 'ttl::map<int, @E> c, e; ' + (TREE_OPS % dict(V='ttl::make_pair(k, @E(i))', R='(c2.begin(), c2.end())')).replace('d.range(c2.begin(), c2.end());', 'for (ttl::map<int, @E>::const_iterator p = c.begin(); p != c.end(); ++p) { d(p->first); d(val(p->second)); }') +
     ' e[5] = @E(6); d(val(e[5])); d(val(e[77]));'),
    ('set', ['set'], 'ttl::set<int> c, e; ' + TREE_OPS % dict(V='k', R='(c.begin(), c.end())')),
    ('set_order', ['set'], 'ttl::set<int, Gr> c; for (unsigned i = 0; i < n; ++i) c.insert(g(30)); d.range(c.begin(), c.end()); d(c.lower_bound(15) == c.end() ? -1 : *c.lower_bound(15));'),
    ('map_cmp', ['map', 'algorithm'], 'ttl::map<int, @E> a, b; for (unsigned i = 0; i < n; ++i) a[g(9)] = @E(1); b = a; d(a == b); d(a != b); b[40] = @E(2); d(a == b); d(a != b);'),
    ('set_cmp', ['set', 'algorithm'], 'ttl::set<int> p, q; for (unsigned i = 0; i < n; ++i) p.insert(g(9)); q = p; d(p == q); q.insert(40); d(p != q);'),
    ('rbtree', ['rbtree', 'utility', 'functional'], 'typedef ttl::rbtree<int, int, ttl::select_same<int>, ttl::less<int> > Tree; Tree t; for (unsigned i = 0; i < n; ++i) { int k = g(20); d(t.insert_unique(k).second); if (g(3) == 0) t.insert_equal(k); if (g(4) == 0) delete t.remove(g(20)); } '
     'for (const ttl::rbnode *p = Tree::min_node(t.get_root()); p && p != t.end(); p = Tree::next_node(p)) d(static_cast<const Tree::node *>(p)->data); d(t.count(3)); t.clear(); d(t.get_root() == 0);'),
    ('vector_map', ['vector_map'], 'ttl::vector_map<int, @E> c; for (unsigned i = 0; i < n; ++i) { int k = g(12); if (g(3) == 0 && c.size()) c.erase(c.begin() + g(c.size())); else c[k] = @E(i); d(c.count(k)); } for (typename_ ttl::vector_map<int, @E>::iterator p = c.begin(); p != c.end(); ++p) { d(p->first); d(val(p->second)); } d(c.size());'.replace('typename_ ', '')),
    ('sorted_vector_map', ['sorted_vector_map'], 'ttl::sorted_vector_map<int, @E> c; for (unsigned i = 0; i < n; ++i) { int k = g(12); c[k] = @E(i); d(c.count(k)); d(c.find(k + 1) == c.end()); } '
     'for (ttl::sorted_vector_map<int, @E>::const_iterator p = c.begin(); p != c.end(); ++p) { d(p->first); d(val(p->second)); } d(c.size()); c.clear(); d(c.empty());'),
    ('bitset', ['bitset'], 'ttl::bitset<70> a, b((unsigned long)g(60000)); for (unsigned i = 0; i < n; ++i) { a.set(g(70)); b.flip(g(70)); a.reset(g(70)); } d(a.count()); d(b.count()); a |= b; d(a.count()); a ^= b; d(a.any()); d(a.none()); a.flip(); d(a.count()); d(a[3]); b[5] = 1; d(b.test(5)); d((unsigned)ttl::bitset<20>((unsigned long)g(60000)).to_ulong());'),
    ('tag', [], 'd(n);'),
    ('ttl_todo', ['ttl'], 'd(sizeof(ttl::fixed_list<@E, 3>) > 0);'),
]
NAMES = {u[0]: u for u in USES}


def closure(hs):
    res = set()
    for h in hs:
        res.add(h)
        res.update(INCLUDES[h])
    return res


STDS = ['c++98', 'gnu++98', 'c++11', 'c++14', 'gnu++14', 'c++17', 'gnu++17', 'c++20', 'gnu++20']
OPTS = ['-O0', '-O0', '-O1', '-O2', '-O3', '-Os']


def config(r):
    c = {'cxx': r.choice(['g++', 'clang++']), 'std': r.choice(STDS), 'opt': r.choice(OPTS), 'flags': []}
    if r.random() < 0.6:
        c['flags'].append('-fno-exceptions')
    if r.random() < 0.6:
        c['flags'].append('-fno-rtti')
    if r.random() < 0.2:
        c['flags'].append('-funsigned-char')
    if r.random() < 0.2:
        c['flags'].append('-fno-inline')
    if r.random() < 0.15:
        c['flags'].append('-ftrapv')
    if r.random() < 0.2:
        c['flags'].append('-fsanitize=address,undefined')
        c['flags'].append('-fno-sanitize-recover=all')
        c['opt'] = r.choice(['-O0', '-O1'])
    return c


def program(r):
    """units: [dict(items=[('ttl'|'std'|'def', name)], uses=[(name, elem, seed)], tree=None|0|1)]"""
    units = []
    out_of_line = r.random() < 0.3
    k = r.choice([1, 1, 2, 2, 3])
    bodies = r.randrange(k)
    for u in range(k):
        if r.random() < 0.3:
            hs = [r.choice(HEADERS)]
        else:
            hs = r.sample(HEADERS, r.choice([2, 3, 4, 6, 9, 14]))
        if r.random() < 0.6:
            hs = [h for h in hs if h != 'ttl'] or ['utility']
        items = [('ttl', h) for h in hs]
        for h in r.sample(hs, min(len(hs), r.choice([0, 0, 1, 2]))):
            items.append(('ttl', h))
        for h in r.sample(STD, r.choice([0, 0, 0, 1, 3])):
            items.append(('std', h))
        r.shuffle(items)
        if r.random() < 0.1:
            items.insert(0, ('def', 'countof(a) (sizeof(a) / sizeof(*(a)))'))
        if r.random() < 0.1:
            items.insert(0, ('def', 'ttl_unrelated 1'))
        units.append(dict(items=items, tree=None))
    if r.random() < 0.1:   # a compiler which is not GNU: what the library has for those
        for x in units:
            x['items'].insert(0, ('undef', '__GNUC__'))
    if out_of_line:
        # one unit has the bodies; it has to see them
        for u, x in enumerate(units):
            x['tree'] = 1 if u == bodies else 0
        if not closure(h for t, h in units[bodies]['items'] if t == 'ttl') & {'rbtree'}:
            units[bodies]['items'].append(('ttl', r.choice(['rbtree', 'map', 'set', 'ttl'])))
    for x in units:
        have = closure(h for t, h in x['items'] if t == 'ttl')
        pool = [n for n, need, body in USES if set(need) <= have]
        own = set(h for t, h in x['items'] if t == 'ttl')
        pool += [n for n in pool if set(NAMES[n][1]) & own] * 3
        x['uses'] = [(r.choice(pool), r.choice(['int', 'Own']), r.randrange(6)) for _ in range(r.choice([1, 3, 6, 10]))]
    return units


def text_of(x, u):
    lines = []
    if x['tree'] is not None:
        lines += ['#define RBTREE_INLINEABLE', '#define RBTREE_INCLUDE_INLINEABLE %d' % x['tree']]
    items = x['items']
    if any(t == 'undef' for t, h in items):   # the system's headers still need it
        items = [('std', h) for h in ('limits.h', 'new', 'stddef.h')] + sorted(items, key=lambda y: {'std': 0, 'undef': 1}.get(y[0], 2))
    for t, h in items:
        lines.append('#undef ' + h if t == 'undef' else '#include <ttl/%s.hpp>' % h if t == 'ttl' else '#include <%s>' % h if t == 'std' else '#define ' + h)
    lines.append(PRELUDE)
    for i, (n, e, s) in enumerate(x['uses']):
        body = NAMES[n][2].replace('@E', e)
        lines.append('static unsigned use%d()\n{\n   Gen g(%du); Dig d; unsigned n = g(40); (void)n;\n   %s\n   return d.h;\n}' % (i, s, body))
    lines.append('void unit%d()\n{' % u)
    for i, (n, e, s) in enumerate(x['uses']):
        lines.append('   printf("%s %s %d %%u\\n", use%d());' % (n, e, s, i))
    lines.append('}')
    if u == 0:
        lines.append('UNITS')
    return '\n'.join(lines) + '\n'


def source(units):
    res = []
    for u, x in enumerate(units):
        t = text_of(x, u)
        if u == 0:
            k = len(units)
            t = t.replace('\nUNITS\n', '\n' + ''.join('void unit%d();\n' % i for i in range(1, k)) + 'int main()\n{\n' + ''.join('   unit%d();\n' % i for i in range(k)) + '   return 0;\n}\n')
        res.append(t)
    return res


def build_run(ctx, units, cfg, tag):
    """(stage, text, digests): stage is ok, compile, link or run"""
    d = os.path.join(ctx.tmp, tag)
    os.makedirs(d)
    try:
        objs = []
        syntax = '-fsyntax-only' in cfg['flags']
        for u, t in enumerate(source(units)):
            p = os.path.join(d, 'u%d.cpp' % u)
            with open(p, 'w') as f:
                f.write(t)
            cmd = [cfg['cxx'], '-std=' + cfg['std'], cfg['opt'], '-w', '-I' + ctx.repo] + cfg['flags']
            q = subprocess.run(cmd + ['-c', p, '-o', p + '.o'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
            if q.returncode:
                return 'compile', q.stdout.decode('utf-8', 'replace'), {}
            objs.append(p + '.o')
        if syntax:
            return 'ok', '', {}
        q = subprocess.run(cmd + objs + ['-o', d + '/a.out'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
        if q.returncode:
            return 'link', q.stdout.decode('utf-8', 'replace'), {}
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0', UBSAN_OPTIONS='print_stacktrace=0')
        try:
            q = subprocess.run([d + '/a.out'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=LIMIT[0], env=env)
        except subprocess.TimeoutExpired:
            return 'run', 'does not end', {}
        out = q.stdout.decode('utf-8', 'replace')
        if q.returncode:
            return 'run', 'exit status %d\n%s%s' % (q.returncode, out, q.stderr.decode('utf-8', 'replace')), {}
        res = {}
        for line in out.splitlines():
            n, e, s, h = line.split()
            res.setdefault((n, e, int(s)), set()).add(h)
        return 'ok', out, res
    finally:
        shutil.rmtree(d, ignore_errors=True)


LIMIT = [30]     # seconds a program may run


def copy(units):
    return [dict(x, items=list(x['items']), uses=list(x['uses'])) for x in units]


def valid(units):
    if not units:
        return False
    for x in units:
        have = closure(h for t, h in x['items'] if t == 'ttl')
        for n, e, s in x['uses']:
            if not set(NAMES[n][1]) <= have:
                return False
    if any(x['tree'] == 0 for x in units):
        return any(x['tree'] == 1 and 'rbtree' in closure(h for t, h in x['items'] if t == 'ttl') for x in units)
    return True


def smaller(units, cfg):
    if len(units) > 1:
        for u in range(len(units)):
            yield units[:u] + units[u + 1:], cfg
    for u, x in enumerate(units):
        k = len(x['uses'])
        for a, b in ((0, k // 2), (k // 2, k)):
            if k > 3:
                y = copy(units)
                y[u]['uses'] = x['uses'][:a] + x['uses'][b:]
                yield y, cfg
        for i in range(k):
            y = copy(units)
            del y[u]['uses'][i]
            yield y, cfg
        k = len(x['items'])
        for a, b in ((0, k // 2), (k // 2, k)):
            if k > 3:
                y = copy(units)
                y[u]['items'] = x['items'][:a] + x['items'][b:]
                yield y, cfg
        for i in range(k):
            y = copy(units)
            del y[u]['items'][i]
            yield y, cfg
        for i, (t, h) in enumerate(x['items']):
            if (t, h) == ('ttl', 'ttl'):
                y = copy(units)
                del y[u]['items'][i]
                y[u]['items'][i:i] = [('ttl', g) for g in INCLUDES['ttl']]
                yield y, cfg
    if any(x['tree'] is not None for x in units):
        y = copy(units)
        for x in y:
            x['tree'] = None
        yield y, cfg
    for f in cfg['flags']:
        yield units, dict(cfg, flags=[g for g in cfg['flags'] if g != f])


def weight(units, cfg):
    return (sum(3 + (len(closure([h])) if t == 'ttl' else 0) for x in units for t, h in x['items']) + 5 * sum(len(x['uses']) for x in units) + 20 * len(units) + len(cfg['flags']) +
            sum(x['tree'] is not None for x in units))


def works(ctx, cfg):
    d = os.path.join(ctx.tmp, 'empty')
    os.makedirs(d, exist_ok=True)
    open(d + '/e.cpp', 'w').write('#include <new>\n#include <stddef.h>\nint main() { return 0; }\n')
    cmd = [cfg['cxx'], '-std=' + cfg['std'], cfg['opt']] + [f for f in cfg['flags'] if f != '-fsyntax-only'] + [d + '/e.cpp', '-o', d + '/e']
    ok = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    return ok and subprocess.run([d + '/e']).returncode == 0


def show(units, cfg):
    s = []
    for x in units:
        s.append(' '.join(h if t == 'ttl' else '<%s>' % h if t == 'std' else '#undef ' + h if t == 'undef' else '#' + h.split('(')[0] for t, h in x['items']) + ({None: '', 0: ' [tree outside]', 1: ' [tree bodies]'}[x['tree']]) +
                 ' : ' + ' '.join('%s<%s>(%d)' % y for y in x['uses']))
    return '%s -std=%s %s %s | %s' % (cfg['cxx'], cfg['std'], cfg['opt'], ' '.join(cfg['flags']), ' || '.join(s))


def run(ctx):
    thorough = ctx.tier == 'thorough'
    count = 9000 if thorough else 260
    r = random.Random(ctx.seed * 7919 + 26)
    jobs = []
    # every header alone, and all of them
    ref = {'cxx': 'g++', 'std': 'gnu++17', 'opt': '-O1', 'flags': ['-fno-exceptions', '-fno-rtti']}
    for e in ('int', 'Own'):
        full = [dict(items=[('ttl', h) for h in HEADERS], uses=[(n, e, s) for n, need, body in USES for s in range(6)], tree=None)]
        jobs.append((full, ref))
    for h in HEADERS:
        jobs.append(([dict(items=[('ttl', h)], uses=[('tag', 'int', 0)], tree=None)], config(r)))
    # all pairs, with all uses which these two allow
    for a in HEADERS:
        for b in HEADERS:
            have = closure([a, b])
            us = [(n, e, 0) for n, need, body in USES if set(need) <= have for e in ('int',)]
            if a != b:
                jobs.append(([dict(items=[('ttl', a), ('ttl', b)], uses=us, tree=None)], dict(config(r), opt='-O0', flags=['-fsyntax-only'])))
    count += len(jobs)
    while len(jobs) < count:
        jobs.append((program(r), config(r)))
    known = {}

    worst = [1 << 30]     # nothing behind the first failure has to run

    def one(a):
        n, (units, cfg) = a
        if n > worst[0]:
            return units, cfg, ('skip',) + ('',) * 2
        res = build_run(ctx, units, cfg, 'p%d' % n)
        if res[0] != 'ok':
            worst[0] = min(worst[0], n)
        return units, cfg, res
    nontrivial, samples, classes, bad = set(), [], {}, None
    first = [one((n, j)) for n, j in enumerate(jobs[:2])]
    with ThreadPoolExecutor(ctx.jobs) as ex:
        rest = list(ex.map(one, list(enumerate(jobs))[2:]))
    pairs = 0
    for units, cfg, (stage, text, res) in first + rest:
        if stage == 'skip':
            break
        classes[cfg['cxx'] + ' ' + cfg['std']] = classes.get(cfg['cxx'] + ' ' + cfg['std'], 0) + 1
        if sum(len(x['items']) for x in units) > 1 or len(units) > 1:
            nontrivial.add(show(units, cfg))
        if len(samples) < 8 and len(units) > 1:
            samples.append(show(units, cfg))
        for k, hs in res.items():
            if k not in known and len(hs) == 1:
                known[k] = list(hs)[0]
            pairs += 1
        wrong = [k for k, hs in res.items() if hs != {known.get(k)}]
        if (stage != 'ok' or wrong) and bad is None:
            bad = (units, cfg, stage, text)
    viol = 0
    if bad:
        units, cfg, stage, text = bad
        if not works(ctx, cfg):
            ctx.error('the compiler does not work: %s' % cfg)
        tries, LIMIT[0], start = [0], 5, time.time()

        def outcome(y, c):
            tries[0] += 1
            st, text, res = build_run(ctx, y, c, 's%d' % tries[0])
            if st == 'ok' and any(hs != {known.get(k)} for k, hs in res.items()):
                st = 'digest'
            return st, text
        want, text = outcome(units, cfg)
        if want == 'ok':
            ctx.error('the failure does not repeat: %s %s' % (stage, show(units, cfg)))
        again = True
        while again and tries[0] < 300 and time.time() - start < 240:
            again = False
            cand = sorted((x for x in smaller(units, cfg) if valid(x[0]) and weight(*x) < weight(units, cfg)), key=lambda x: weight(*x))
            for y, c in cand:
                st, t = outcome(y, c)
                if st == want:
                    units, cfg, text, again = y, c, t, True
                    break
                if tries[0] >= 300 or time.time() - start > 240:
                    break
        print('C26: %s: %s' % ({'compile': 'does not compile', 'link': 'does not link', 'run': 'does not run', 'digest': 'behaves differently'}[want], show(units, cfg)))
        print(text[:1500])
        with open(ctx.replay, 'w') as f:
            f.write('// property C26, %s: %s\n/*\n%s\n*/\n' % (want, show(units, cfg), text[:5000].replace('*/', '* /')))
            if want == 'digest':
                f.write('// digests elsewhere: %s\n' % ', '.join('%s %s %d: %s' % (k + (known.get(k),)) for x in units for k in x['uses']))
            for u, t in enumerate(source(units)):
                f.write('////////////// translation unit %d\n%s' % (u, t))
        viol = 1
    rule = ('programs of 1 to 3 translation units, each a random sequence of the 21 headers (with repetitions, standard headers and user macros between them) and uses of their declarations; two compilers, nine standards, optimisation levels, '
            'with and without exceptions, RTTI, sanitizers, both configurations of the tree. Non-trivial: more than one header or translation unit; distinct as programs with their configuration')
    ctx.evidence({'evaluations': len(jobs), 'distinct_nontrivial': len(nontrivial), 'rule': rule, 'samples': samples, 'classes': classes,
                  'digests_compared': pairs}, viol, ctx.spec.get('assumptions', ()))
    print('C26: %d programs, %d distinct non-trivial, %d digests compared: %s' % (len(jobs), len(nontrivial), pairs, 'VIOLATED' if viol else 'held'))
    if viol:
        ctx.violation()
    return viol
