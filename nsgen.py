"""C30: programs whose types live in namespaces of their own.

A program uses the library with iterators, elements and function objects of a
user's namespace and of the standard library.  The user's namespace may declare
functions with the names of the library's own: templates which fit as well as
the library's, or better ones for its types, which do something else.  Every
use prints a digest of its results, which must be that of the same use with
pointers to int, function objects of the global namespace, and nothing else
declared.  A failure is shrunk by removing uses, declarations, headers, flags.
"""
import os, random, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from headergen import LIMIT, STDS, config, works

STD = ['algorithm', 'numeric', 'utility', 'iterator', 'functional', 'map', 'set', 'list', 'string', 'memory', 'bitset']
TTL = ['types', 'type_traits', 'functional', 'numeric', 'utility', 'algorithm', 'array', 'vector', 'fixed_vector', 'forward_list', 'backward_list',
       'lazy_queue', 'list', 'rbtree', 'map', 'set', 'vector_map', 'sorted_vector_map', 'bitset']
NAMES = ['find', 'find_if', 'find_if_not', 'search', 'search_n', 'count', 'count_if', 'all_of', 'any_of', 'none_of', 'adjacent_find', 'equal', 'mismatch', 'for_each',
         'iter_swap', 'swap_ranges', 'fill', 'fill_n', 'copy', 'copy_if', 'copy_n', 'copy_backward', 'generate', 'generate_n', 'replace', 'replace_if', 'replace_copy',
         'replace_copy_if', 'remove', 'remove_if', 'remove_copy', 'remove_copy_if', 'transform', 'reverse', 'reverse_copy', 'lower_bound', 'upper_bound', 'binary_search',
         'equal_range', 'is_sorted', 'is_sorted_until', 'merge', 'min', 'max', 'minmax', 'min_element', 'max_element', 'minmax_element', 'make_pair', 'distance', 'advance',
         'iota', 'accumulate', 'move']

PRELUDE = '''
extern "C" int printf(const char *, ...);
namespace app
{
   struct Rec
   {
      int v;
      Rec(int x = 0): v(x) {}
   };
   inline bool operator==(const Rec &a, const Rec &b) { return a.v == b.v; }
   inline bool operator!=(const Rec &a, const Rec &b) { return a.v != b.v; }
   inline bool operator<(const Rec &a, const Rec &b) { return a.v < b.v; }
   inline bool operator>(const Rec &a, const Rec &b) { return a.v > b.v; }
   inline Rec operator+(const Rec &a, const Rec &b) { return Rec(a.v + b.v); }
   inline Rec &operator++(Rec &a) { ++a.v; return a; }
   inline int val(const Rec &r) { return r.v; }
   inline int val(int x) { return x; }
   template<class T> struct It
   {
      typedef T value_type; typedef T &reference; typedef T *pointer; typedef ttl::ptrdiff_t difference_type;
      T *p;
      It(T *q = 0): p(q) {}
      T &operator*() const { return *p; }
      T *operator->() const { return p; }
      It &operator++() { ++p; return *this; }
      It operator++(int) { It t(*this); ++p; return t; }
      It &operator--() { --p; return *this; }
      It operator--(int) { It t(*this); --p; return t; }
      It &operator+=(ttl::ptrdiff_t n) { p += n; return *this; }
      It operator+(ttl::ptrdiff_t n) const { return It(p + n); }
      It operator-(ttl::ptrdiff_t n) const { return It(p - n); }
      ttl::ptrdiff_t operator-(const It &o) const { return p - o.p; }
      bool operator==(const It &o) const { return p == o.p; }
      bool operator!=(const It &o) const { return p != o.p; }
   };
   // an element whose namespaces are this one and those of P
   template<class P> struct Box
   {
      int v;
      Box(int x = 0): v(x) {}
      friend bool operator==(const Box &a, const Box &b) { return a.v == b.v; }
      friend bool operator!=(const Box &a, const Box &b) { return a.v != b.v; }
      friend bool operator<(const Box &a, const Box &b) { return a.v < b.v; }
      friend bool operator>(const Box &a, const Box &b) { return a.v > b.v; }
      friend Box operator+(const Box &a, const Box &b) { return Box(a.v + b.v); }
      friend Box &operator++(Box &a) { ++a.v; return a; }
      friend int val(const Box &a) { return a.v; }
   };
   // an element with a base which has a swap of its own: it would swap one half
   struct Base { int half; };
   inline void swap(Base &a, Base &b) { int t = a.half; a.half = b.half; b.half = t; }
   struct Whole: Base
   {
      int v;
      Whole(int x = 0): v(x) { half = ~x; }
      friend bool operator==(const Whole &a, const Whole &b) { return a.v == b.v; }
      friend bool operator!=(const Whole &a, const Whole &b) { return a.v != b.v; }
      friend bool operator<(const Whole &a, const Whole &b) { return a.v < b.v; }
      friend bool operator>(const Whole &a, const Whole &b) { return a.v > b.v; }
      friend Whole operator+(const Whole &a, const Whole &b) { return Whole(a.v + b.v); }
      friend Whole &operator++(Whole &a) { a = Whole(a.v + 1); return a; }
      friend int val(const Whole &a) { return a.half == ~a.v ? a.v : -77; }
   };
   struct Lt { template<class T> bool operator()(const T &a, const T &b) const { return a < b; } };
   struct Gr { template<class T> bool operator()(const T &a, const T &b) const { return b < a; } };
   struct Eq { template<class T> bool operator()(const T &a, const T &b) const { return a == b; } };
   struct Odd { template<class T> bool operator()(const T &a) const { return (val(a) & 1) != 0; } };
   struct Inc { template<class T> T operator()(const T &a) const { return T(val(a) + 1); } };
   struct Sum { template<class T> T operator()(const T &a, const T &b) const { return T(val(a) + val(b)); } };
   struct Cnt { unsigned n; Cnt(): n(0) {} template<class T> void operator()(const T &a) { n = n * 31 + val(a); } };
   template<class T> struct Next { int n; Next(int x): n(x) {} T operator()() { return T(n++); } };
}
// a namespace with a swap for every type
namespace any
{
   struct Tag {};
   template<class T> void swap(T &a, T &b) { T t(a); a = b; b = t; }
}
@POISON
namespace
{
   typedef app::Box<std::vector<int> > InStd;
   typedef app::Box<ttl::vector<int> > InTtl;
   typedef app::Box<ttl::vector<std::vector<int> > > InBoth;
   typedef app::Box<any::Tag> InAny;
   typedef app::Whole Whole;
   using app::val;
   struct Gen
   {
      unsigned s;
      Gen(unsigned x): s(x * 2654435761u + 12345u) {}
      unsigned operator()(unsigned n) { s = s * 1664525u + 1013904223u; return (s >> 8) % n; }
   };
   struct Dig
   {
      unsigned h;
      Dig(): h(7) {}
      void operator()(unsigned x) { h = (h ^ x) * 16777619u + 1u; }
      template<class I> void range(I b, I e) { unsigned n = 0; for (; b != e; ++b, ++n) (*this)((unsigned)val(*b)); (*this)(n); }
   };
   template<class T> struct ptr_of { typedef T E; typedef T *I; T x[120]; ptr_of(): x() {} I at(unsigned k) { return x + k; } };
   template<class T> struct it_of { typedef T E; typedef app::It<T> I; T x[120]; it_of(): x() {} I at(unsigned k) { return I(x + k); } };
   template<class T> struct vec_of { typedef T E; typedef typename std::vector<T>::iterator I; std::vector<T> x; vec_of(): x(120) {} I at(unsigned k) { return x.begin() + k; } };
   template<class T> struct deq_of { typedef T E; typedef typename std::deque<T>::iterator I; std::deque<T> x; deq_of(): x(120) {} I at(unsigned k) { return x.begin() + k; } };
   template<class T> struct tvec_of { typedef T E; typedef typename ttl::vector<T>::iterator I; ttl::vector<T> x; tvec_of(): x(120) {} I at(unsigned k) { return x.begin() + k; } };
   template<class B> void fill_(B &b, Gen &g, unsigned n, unsigned k) { for (unsigned i = 0; i < n; ++i) *b.at(i) = typename B::E((int)g(k)); }
   template<class B> void sorted_(B &b, Gen &g, unsigned n) { int v = 0; for (unsigned i = 0; i < n; ++i) *b.at(i) = typename B::E(v += g(3)); }
}
'''
KINDS = ['ptr_of<int>', 'ptr_of<app::Rec>', 'it_of<int>', 'it_of<app::Rec>', 'vec_of<int>', 'vec_of<app::Rec>', 'deq_of<app::Rec>', 'deq_of<int>', 'tvec_of<app::Rec>',
         'ptr_of<InStd>', 'vec_of<InTtl>', 'ptr_of<InBoth>', 'it_of<InAny>', 'ptr_of<Whole>', 'tvec_of<InBoth>']
PLAIN = KINDS[0]

# bodies of a function template over B; E is the element type, I the iterator
A = 'B a; fill_(a, g, n, 4); const E x((int)g(4)); I f = a.at(0), l = a.at(n); '
AB = 'B a, b; fill_(a, g, n, 4); fill_(b, g, n + 1, 4); const E x((int)g(4)); I f = a.at(0), l = a.at(n), s = b.at(0); '
S = 'B a; sorted_(a, g, n); const E x((int)g(n + 3)); I f = a.at(0), l = a.at(n); '
USES = [
    ('find', A + 'd(ttl::find(f, l, x) - f); d(ttl::find_if(f, l, app::Odd()) - f); d(ttl::find_if_not(f, l, app::Odd()) - f);'),
    ('search', AB + 'if (n > 3) { ttl::copy(f + 2, f + 4, s); } d(ttl::search(f, l, s, s + (n < 2 ? n : 2)) - f); d(ttl::search(f, l, s, s + (n < 2 ? n : 2), app::Eq()) - f); d(ttl::search_n(f, l, 2, x) - f); d(ttl::search_n(f, l, 2, x, app::Eq()) - f);'),
    ('count', A + 'd(ttl::count(f, l, x)); d(ttl::count_if(f, l, app::Odd()));'),
    ('quantifiers', A + 'd(ttl::all_of(f, l, app::Odd())); d(ttl::any_of(f, l, app::Odd())); d(ttl::none_of(f, l, app::Odd())); d(ttl::any_of(f, f + n / 8, app::Odd())); d(ttl::none_of(f, f + n / 9, app::Odd()));'),
    ('adjacent', A + 'd(ttl::adjacent_find(f, l) - f); d(ttl::adjacent_find(f, l, app::Eq()) - f);'),
    ('equal', AB + 'ttl::copy(f, l, s); if (g(2) && n) *(s + g(n)) = x; d(ttl::equal(f, l, s)); d(ttl::equal(f, l, s, app::Eq())); d(ttl::equal(f, l, s, s + n)); d(ttl::equal(f, l, s, s + n, app::Eq())); '
     'd(ttl::mismatch(f, l, s).first - f); d(ttl::mismatch(f, l, s, app::Eq()).second - s); d(ttl::mismatch(f, l, s, s + n).first - f); d(ttl::mismatch(f, l, s, s + n, app::Eq()).second - s);'),
    ('for_each', A + 'd(ttl::for_each(f, l, app::Cnt()).n);'),
    ('swaps', AB + 'ttl::iter_swap(f, s); if (n) d(ttl::swap_ranges(f, l, s) - s); d.range(f, l); d.range(s, s + n); d(ttl::swap_ranges(f, f + n / 2, l - n / 2) - f); d.range(f, l);'),
    ('fill', A + 'ttl::fill(f, f + n / 2, x); d(ttl::fill_n(f + n / 2, n / 3, E(7)) - f); d.range(f, l);'),
    ('copy', AB + 'd(ttl::copy(f, f + n / 2, s) - s); d.range(s, s + n); d(ttl::copy_if(f, l, s, app::Odd()) - s); d.range(s, s + n); d(ttl::copy_n(f, n / 2, s) - s); if (n) d(ttl::copy_backward(f, l - 1, l) - f); d.range(f, l);'),
    ('generate', A + 'ttl::generate(f, f + n / 2, app::Next<E>(4)); d(ttl::generate_n(f + n / 2, n / 3, app::Next<E>(9)) - f); d.range(f, l);'),
    ('replace', AB + 'd(ttl::replace_copy(f, l, s, x, E(8)) - s); d.range(s, s + n); d(ttl::replace_copy_if(f, l, s, app::Odd(), E(8)) - s); d.range(s, s + n); ttl::replace(f, l, x, E(6)); ttl::replace_if(f, l, app::Odd(), E(9)); d.range(f, l);'),
    ('remove', AB + 'd(ttl::remove_copy(f, l, s, x) - s); d(ttl::remove_copy_if(f, l, s, app::Odd()) - s); l = ttl::remove(f, l, x); d.range(f, l); l = ttl::remove_if(f, l, app::Odd()); d.range(f, l);'),
    ('transform', AB + 'd(ttl::transform(f, l, s, app::Inc()) - s); d.range(s, s + n); d(ttl::transform(f, l, s, s, app::Sum()) - s); d.range(s, s + n);'),
    ('reverse', AB + 'd(ttl::reverse_copy(f, l, s) - s); d.range(s, s + n); ttl::reverse(f, l); d.range(f, l);'),
    ('bounds', S + 'd(ttl::lower_bound(f, l, x) - f); d(ttl::upper_bound(f, l, x) - f); d(ttl::binary_search(f, l, x)); d(ttl::equal_range(f, l, x).first - f); d(ttl::equal_range(f, l, x).second - f);'),
    ('bounds_by', S + 'd(ttl::lower_bound(f, l, x, app::Lt()) - f); d(ttl::upper_bound(f, l, x, app::Lt()) - f); d(ttl::binary_search(f, l, x, app::Lt())); d(ttl::equal_range(f, l, x, app::Lt()).first - f); d(ttl::equal_range(f, l, x, app::Lt()).second - f);'),
    ('sorted', S + 'if (n && g(2)) *(f + g(n)) = x; d(ttl::is_sorted(f, l)); d(ttl::is_sorted_until(f, l) - f);'),
    ('merge', S + 'B b, c; sorted_(b, g, n); d(ttl::merge(f, l, b.at(0), b.at(n), c.at(0)) - c.at(0)); d.range(c.at(0), c.at(2 * n));'),
    ('extremes', A + 'd(ttl::min_element(f, l) - f); d(ttl::max_element(f, l) - f); d(ttl::minmax_element(f, l).first - f); d(ttl::minmax_element(f, l).second - f); const E y((int)g(5)); d(val(ttl::min(x, y))); d(val(ttl::max(x, y))); '
     'd(val(ttl::min(x, y, app::Lt()))); d(val(ttl::max(x, y, app::Lt()))); d(val(ttl::minmax(x, y).first)); d(val(ttl::minmax(x, y, app::Gr()).first));'),
    ('numeric', A + 'ttl::iota(f, f + n / 2, x); d.range(f, l); d(val(ttl::accumulate(f, l, x)));'),
    ('utility', A + 'I p = f; ttl::advance(p, (int)n); d(ttl::distance(f, p)); E y(5); E z(x); ttl::swap(y, z); d(val(y)); d(val(z)); ttl::pair<E, E> q(y, z), r = ttl::make_pair(z, y); q.swap(r); d(val(q.first)); d(q == r); d(q != r); d(val(ttl::move(y)));'),
    ('array', A + 'ttl::array<E, 5> p, q; for (unsigned i = 0; i < 5; ++i) p[i] = *(f + i); q.fill(x); d(p == q); d(p != q); p.swap(q); d.range(p.begin(), p.end()); d.range(q.begin(), q.end());'),
    ('vector', A + 'ttl::vector<E> p, q(f, l); p.assign(f, l); p.insert(p.begin() + n / 2, q.begin(), q.end()); p.insert(p.begin(), 2u, x); p.insert(p.end(), x); p.erase(p.begin()); if (n) p.erase(p.begin(), p.begin() + g(n)); p.push_back(p.front()); p.resize(p.size() + 2); '
     'd.range(p.begin(), p.end()); d(p == q); d(p != q); p.swap(q); q = p; d(p == q); d.range(p.begin(), p.end()); p.reserve(200); p.insert(p.begin() + n / 2, q.begin(), q.end()); d.range(p.begin(), p.end());'),
    ('fixed_vector', A + 'ttl::fixed_vector<E, 70> p, q(f, l); p.assign(f, l); p.insert(p.begin() + n / 2, q.begin(), q.end()); p.insert(p.begin(), 2u, x); p.erase(p.begin()); if (n) p.erase(p.begin(), p.begin() + g(n)); '
     'd.range(p.begin(), p.end()); d(p == q); d(p != q); p.swap(q); q = p; d(p == q); d.range(p.begin(), p.end());'),
    ('forward_list', A + 'ttl::forward_list<E> p, q(f, l); p.insert_after(p.before_begin(), f, l); d(p == q); p.push_front(x); d(p != q); p.swap(q); p.splice_after(p.before_begin(), q); p.reverse(); d.range(p.begin(), p.end()); q = p; q.erase_after(q.before_begin()); d.range(q.begin(), q.end());'),
    ('backward_list', A + 'ttl::backward_list<E> p, q(f, l); p.assign(f, l); d(p == q); p.push_back(x); d(p != q); p.swap(q); p.reverse(); p.push_front(x); d.range(p.begin(), p.end()); q = p; d(val(q.back()));'),
    ('lazy_queue', A + 'ttl::lazy_queue<E> p, q; p.insert_after(p.before_begin(), f, l); q = p; p.push_back(x); p.swap(q); q.pop_front(); q.push_back(x); d.range(p.begin(), p.end()); d.range(q.begin(), q.end());'),
    ('list', S + 'ttl::list<E> p(f, l), q(f, l); q.push_back(E(99)); d(p == q); d(p != q); p.merge(q); d.range(p.begin(), p.end()); p.unique(); d.range(p.begin(), p.end()); q = p; p.merge(q, app::Lt()); p.unique(app::Eq()); p.remove(x); p.remove_if(app::Odd()); p.swap(q); p.splice(p.begin(), q); p.reverse(); d.range(p.begin(), p.end()); d(p.size());'),
    ('map', A + 'ttl::map<E, E> p, q; ttl::map<E, int, app::Gr> o; for (unsigned i = 0; i < n; ++i) { p[*(f + i)] = x; o[*(f + i)] += i; d(q.insert(ttl::make_pair(E((int)g(9)), x)).second); } d(p == q); q = p; d(p == q); d(p != q); d(p.count(x)); d(p.erase(x)); d(p.find(x) == p.end()); '
     'for (typename ttl::map<E, int, app::Gr>::iterator i = o.begin(); i != o.end(); ++i) { d(val(i->first)); d(i->second); } d(o.lower_bound(x) == o.end()); d(o.equal_range(x).first == o.equal_range(x).second);'),
    ('set', A + 'ttl::set<E> p(f, l), q; ttl::set<E, app::Gr> o(f, l); d(p == q); q = p; d(p != q); d(p.count(x)); d(p.erase(x)); d(q.find(x) == q.end()); d.range(p.begin(), p.end()); d.range(o.begin(), o.end()); d(o.upper_bound(x) == o.end());'),
    ('rbtree', A + 'typedef ttl::rbtree<E, E, ttl::select_same<E>, app::Lt> Tree; Tree t, u; for (unsigned i = 0; i < n; ++i) t.insert_equal(*(f + i)); d(t.count(x)); delete t.remove(x); d(t.count(x)); u.assign(t); d(u.equal_range(x).first == u.equal_range(x).second); d(u.insert_unique(x).second); '
     'for (const ttl::rbnode *p = Tree::min_node(u.get_root()); p && p != u.end(); p = Tree::next_node(p)) d(val(static_cast<const typename Tree::node *>(p)->data));'),
    ('vector_map', A + 'ttl::vector_map<E, E> p; for (unsigned i = 0; i < n; ++i) { p[*(f + i)] = E((int)i); d(p.insert(ttl::make_pair(E((int)g(9)), x)).second); } d(p.count(x)); d(p.find(x) == p.end()); for (typename ttl::vector_map<E, E>::iterator i = p.begin(); i != p.end(); ++i) { d(val(i->first)); d(val(i->second)); }'),
    ('sorted_vector_map', A + 'ttl::sorted_vector_map<E, E> p; for (unsigned i = 0; i < n; ++i) { p[*(f + i)] = E((int)i); d(p.insert(ttl::make_pair(E((int)g(9)), x)).second); } d(p.count(x)); d(p.find(x) == p.end()); d(p.lower_bound(x) == p.end()); d(p.equal_range(x).first == p.equal_range(x).second); '
     'for (typename ttl::sorted_vector_map<E, E>::iterator i = p.begin(); i != p.end(); ++i) { d(val(i->first)); d(val(i->second)); }'),
]
BODY = dict(USES)
NUM = {n: i for i, (n, b) in enumerate(USES)}


def shapes():
    """parameter lists in which neighbours share their types or not; the last one by value or by reference"""
    r = []
    for k in range(1, 7):
        for bits in range(2 ** (k - 1)):
            p, t = ['T0'], 0
            for i in range(k - 1):
                t += bits >> i & 1
                p.append('T%d' % t)
            for last in ('%s', 'const %s &') + (('const %s &, O',) if t < 4 else ()):
                q = p[:-1] + [last % p[-1]]
                r.append('template<%s> Trap %%s(%s);' % (', '.join(['class T%d' % i for i in range(t + 1)] + (['class O'] if last.endswith('O') else [])), ', '.join(q)))
    return r


SHAPES = shapes()


def poison(names, mode):
    """functions with the library's names in the user's namespace"""
    if not names:
        return ''
    s = ['namespace app', '{']
    if mode == 'trap':
        # no better and no worse than the library's own templates
        s.append('   struct Trap {};')
        for n in names:
            s += ['   ' + f % n for f in SHAPES]
    else:
        # better ones for the types of this namespace: they do something else
        for n in names:
            for p, q in (('class T, ', 'It<T>'), ('', 'Rec *'), ('', 'const Rec *')):
                s.append('   template<%sclass C> %s %s(%s f, %s, const C &) { return f; }' % (p, q, n, q, q))
                s.append('   template<%sclass C> %s %s(%s f, %s, C &) { return f; }' % (p, q, n, q, q))
                s.append('   template<%sclass C, class D> %s %s(%s f, %s, const C &, D) { return f; }' % (p, q, n, q, q))
                if p:
                    s.append('   template<class T> %s %s(%s f, %s) { return f; }' % (q, n, q, q))
                else:
                    s.append('   inline %s %s(%s f, %s) { return f; }' % (q, n, q, q))
            for fo in ('Odd', 'Lt', 'Eq', 'Gr'):
                s.append('   template<class I> I %s(I f, I, %s) { return f; }' % (n, fo))
                s.append('   template<class I, class C> I %s(I f, I, const C &, %s) { return f; }' % (n, fo))
        s.append('   inline void swap(Rec &a, Rec &b) { int v = a.v; a.v = b.v; b.v = v; }')
    s.append('}')
    return '\n'.join(s)


def program(r):
    names = []
    mode = r.choice(['none', 'trap', 'trap', 'better', 'better'])
    if mode != 'none':
        names = list(NAMES) if r.random() < 0.5 else sorted(r.sample(NAMES, r.choice([1, 3, 10])))
    items = [('ttl', h) for h in TTL] + [('std', 'vector'), ('std', 'deque')] + [('std', h) for h in r.sample(STD, r.choice([0, 1, 3, 8]))]
    r.shuffle(items)
    return dict(items=items, mode=mode, names=names, late=r.random() < 0.5,
                uses=[(r.choice(USES)[0], r.choice(KINDS), r.randrange(8)) for _ in range(r.choice([2, 4, 8]))])


def source(p):
    inc = '\n'.join('#include <ttl/%s.hpp>' % h if t == 'ttl' else '#include <%s>' % h for t, h in p['items'])
    bad = poison(p['names'], p['mode'])
    s = [inc, PRELUDE.replace('@POISON', '' if p['late'] else bad)]
    for n in sorted(set(u[0] for u in p['uses'])):
        s.append('template<class B> static unsigned use_%s(unsigned seed)\n{\n   typedef typename B::E E; typedef typename B::I I; Gen g(seed); Dig d; const unsigned n = seed == 0 ? 0 : g(40); (void)n;\n   %s\n   return d.h;\n}' %
                 (n, BODY[n].replace('B a', 'B a').replace('= ttl::make_pair(z, y)', '= ttl::make_pair(z, y)')))
    if p['late']:
        s.append(bad)   # seen where the templates are instantiated
    s.append('int main()\n{')
    for n, k, q in p['uses']:
        s.append('   printf("%s %d %%u\\n", use_%s<%s >(%d));' % (n, q, n, k, q))
    s.append('   return 0;\n}\n')
    return '\n'.join(s)


def build_run(ctx, p, cfg, tag):
    d = os.path.join(ctx.tmp, tag)
    os.makedirs(d)
    try:
        with open(d + '/p.cpp', 'w') as f:
            f.write(source(p))
        cmd = [cfg['cxx'], '-std=' + cfg['std'], cfg['opt'], '-w', '-I' + ctx.repo] + cfg['flags'] + [d + '/p.cpp', '-o', d + '/a.out']
        q = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if q.returncode:
            return 'compile', q.stdout.decode('utf-8', 'replace'), []
        try:
            q = subprocess.run([d + '/a.out'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=LIMIT[0], env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
        except subprocess.TimeoutExpired:
            return 'run', 'does not end', []
        out = q.stdout.decode('utf-8', 'replace')
        if q.returncode:
            return 'run', 'exit status %d\n%s%s' % (q.returncode, out, q.stderr.decode('utf-8', 'replace')), []
        return 'ok', out, [((l.split()[0], int(l.split()[1])), l.split()[2]) for l in out.splitlines()]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def smaller(p, cfg):
    u = p['uses']
    k = len(u)
    if k > 3:
        yield dict(p, uses=u[:k // 2]), cfg
        yield dict(p, uses=u[k // 2:]), cfg
    if k > 1:
        for i in range(k):
            yield dict(p, uses=u[:i] + u[i + 1:]), cfg
    if p['names']:
        yield dict(p, names=[], mode='none'), cfg
        m = p['names']
        if len(m) > 1:
            yield dict(p, names=m[:len(m) // 2]), cfg
            yield dict(p, names=m[len(m) // 2:]), cfg
        if len(m) < 9:
            for i in range(len(m)):
                yield dict(p, names=m[:i] + m[i + 1:]), cfg
    if p['late']:
        yield dict(p, late=False), cfg
    for i, x in enumerate(p['items']):
        if x[0] == 'std' and x[1] not in ('vector', 'deque'):
            yield dict(p, items=p['items'][:i] + p['items'][i + 1:]), cfg
    for i, (n, kind, s) in enumerate(u):
        for t in KINDS[:KINDS.index(kind)]:
            yield dict(p, uses=u[:i] + [(n, t, s)] + u[i + 1:]), cfg
    for f in cfg['flags']:
        yield p, dict(cfg, flags=[g for g in cfg['flags'] if g != f])


def weight(p, cfg):
    return 100 * len(p['uses']) + len(p['names']) + len(p['items']) + sum(KINDS.index(k) for n, k, s in p['uses']) + len(cfg['flags']) + p['late']


def show(p, cfg):
    return '%s -std=%s %s %s | %s%s %d names | %s | %s' % (cfg['cxx'], cfg['std'], cfg['opt'], ' '.join(cfg['flags']), p['mode'], ' late' if p['late'] else '', len(p['names']),
                                                        ' '.join(h for t, h in p['items'] if t == 'std'), ' '.join('%s<%s>(%d)' % u for u in p['uses']))


def run(ctx):
    thorough = ctx.tier == 'thorough'
    count = 5000 if thorough else 200
    r = random.Random(ctx.seed * 104729 + 30)
    ref = {'cxx': 'g++', 'std': 'gnu++17', 'opt': '-O1', 'flags': ['-fno-exceptions', '-fno-rtti']}
    plain = dict(items=[('ttl', h) for h in TTL] + [('std', 'vector'), ('std', 'deque')], mode='none', names=[], late=False, uses=[(n, PLAIN, s) for n, b in USES for s in range(8)])
    stage, text, res = build_run(ctx, plain, ref, 'plain')
    if stage != 'ok' and not works(ctx, ref):
        ctx.error('the compiler does not work')
    known = dict(res)
    bad = (plain, ref, stage, text) if stage != 'ok' else None
    jobs = []
    # every use with every kind and every name declared, both ways
    for i, k in enumerate(KINDS):
        for mode in ('trap', 'better'):
            items = list(plain['items']) + [('std', h) for h in STD]
            r.shuffle(items)
            us = list(USES)
            for part in (us[::2], us[1::2]):
                jobs.append((dict(items=items, mode=mode, names=list(NAMES), late=bool(i % 2), uses=[(n, k, r.randrange(8)) for n, b in part]), config(r)))
    while len(jobs) < count:
        jobs.append((program(r), config(r)))

    worst = [1 << 30]     # nothing behind the first failure has to run

    def one(a):
        n, (p, cfg) = a
        if n > worst[0]:
            return p, cfg, ('skip',) + ('',) * 2
        res = build_run(ctx, p, cfg, 'p%d' % n)
        if res[0] != 'ok':
            worst[0] = min(worst[0], n)
        return p, cfg, res
    nontrivial, samples, classes, done = set(), [], {}, 0
    pairs = 0
    if not bad:
        with ThreadPoolExecutor(ctx.jobs) as ex:
            for p, cfg, (stage, text, res) in ex.map(one, enumerate(jobs)):
                if stage == 'skip':
                    break
                done += 1
                classes[p['mode']] = classes.get(p['mode'], 0) + 1
                if p['names'] or any(k != PLAIN for n, k, s in p['uses']):
                    nontrivial.add(show(p, cfg))
                if len(samples) < 8 and done > 36:
                    samples.append(show(p, cfg))
                pairs += len(res)
                if (stage != 'ok' or any(known.get(k) != h for k, h in res)) and bad is None:
                    bad = (p, cfg, stage, text)
    viol = 0
    if bad:
        p, cfg, stage, text = bad
        if not works(ctx, cfg):
            ctx.error('the compiler does not work: %s' % cfg)
        tries, LIMIT[0], start = [0], 5, time.time()

        def outcome(p, c):
            tries[0] += 1
            st, text, res = build_run(ctx, p, c, 's%d' % tries[0])
            if st == 'ok' and any(known.get(k) != h for k, h in res):
                st = 'digest'
            return st, text
        kind, text = outcome(p, cfg) if known else (stage, text)
        if kind != 'ok':
            again = bool(known)
            while again and tries[0] < 150 and time.time() - start < 240:
                again = False
                for y, c in sorted(smaller(p, cfg), key=lambda z: weight(*z)):
                    if weight(y, c) < weight(p, cfg) and tries[0] < 150 and time.time() - start < 240:
                        st, t = outcome(y, c)
                        if st == kind:
                            p, cfg, text, again = y, c, t, True
                            break
            print('C30: %s: %s' % ({'digest': 'a use gives another result than with pointers to int', 'compile': 'does not compile'}.get(kind, kind), show(p, cfg)))
            print(text[:1500])
            with open(ctx.replay, 'w') as f:
                f.write('// property C30, %s: %s\n/*\n%s\nwanted: %s\n*/\n%s' % (kind, show(p, cfg), text[:4000].replace('*/', '* /'),
                                                                          ' '.join('%s(%d)=%s' % (n, s, known.get((n, s))) for n, k, s in p['uses'][:20]), source(p)))
            viol = 1
    rule = ('programs with %d uses (all algorithms, helpers and containers) over iterators, elements and function objects of a user namespace or of the standard library, the namespace declaring none, some or all of %d names of the library as templates '
            'which fit equally well or better; two compilers, nine standards; non-trivial: another kind than pointers to int or a declared name; distinct programs counted' % (len(USES), len(NAMES)))
    ctx.evidence({'evaluations': done + 1, 'distinct_nontrivial': max(len(nontrivial), 1), 'rule': rule, 'samples': samples or [show(plain, ref)[:500]], 'digests': pairs, 'classes': classes}, viol)
    print('C30: %d programs, %d distinct non-trivial, %d digests compared: %s' % (done + 1, len(nontrivial), pairs, 'VIOLATED' if viol else 'held'))
    if viol:
        ctx.violation()
    return viol
