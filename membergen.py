"""C32: the member types of the containers, and what their members return.

A program asserts, for containers of random element types, keys and
comparisons, the type of every member type and of every member call on
mutable and const containers, and that a const container refuses what would
change it.  The expected types are computed from the arguments of the
container.  A failure is shrunk to one assertion.
"""
import os, random, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from headergen import works

CONFIGS = [('g++', 'c++11'), ('g++', 'gnu++14'), ('g++', 'c++17'), ('g++', 'gnu++20'), ('clang++', 'c++11'), ('clang++', 'c++14'), ('clang++', 'gnu++17'), ('clang++', 'c++20')]
HEADERS = ['types', 'functional', 'utility', 'numeric', 'algorithm', 'array', 'vector', 'fixed_vector', 'forward_list', 'backward_list', 'lazy_queue', 'list', 'rbtree', 'map', 'set', 'vector_map', 'sorted_vector_map', 'bitset']
PRELUDE = '''
namespace app
{
   struct P { int v; P(): v() {} P(int x): v(x) {} };
   inline bool operator==(const P &a, const P &b) { return a.v == b.v; }
   inline bool operator<(const P &a, const P &b) { return a.v < b.v; }
   enum En { one, two };
   union Un { int i; float f; };
   template<class T> struct Gr { bool operator()(const T &a, const T &b) const { return b < a; } };
   struct Lt { template<class T> bool operator()(const T &a, const T &b) const { return a < b; } };
   struct Fn { template<class T> void operator()(const T &) const {} };
}
template<class A, class B> struct same { enum { v = 0 }; };
template<class A> struct same<A, A> { enum { v = 1 }; };
template<class T> T &lv();
typedef char yes; struct no { char x[2]; };
template<class A, class B> struct conv { static yes t(B); static no t(...); enum { v = sizeof(t(lv<A>())) == sizeof(yes) }; };
'''

FUND = ['bool', 'char', 'signed char', 'unsigned char', 'short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'float', 'double', 'long double', 'wchar_t']


def elem(r, depth=0):
    k = r.random()
    if k < 0.35 or depth > 2:
        return r.choice(FUND)
    if k < 0.5:
        return r.choice(['app::P', 'app::En', 'app::Un'])
    if k < 0.65:
        return elem(r, depth + 1) + r.choice([' *', ' *', ' const *', ' volatile *'])
    if k < 0.7:
        return 'const char *'
    if k < 0.8:
        return 'ttl::pair<%s, %s >' % (elem(r, depth + 1), elem(r, depth + 1))
    c = r.choice(['vector', 'list', 'fixed_vector', 'forward_list', 'array', 'map', 'lazy_queue', 'set'])
    if c in ('fixed_vector', 'array'):
        return 'ttl::%s<%s, %d>' % (c, elem(r, depth + 1), r.choice([1, 3, 8]))
    if c == 'map':
        return 'ttl::map<%s, %s >' % (key(r), elem(r, depth + 1))
    if c == 'set':
        return 'ttl::set<%s >' % key(r)
    return 'ttl::%s<%s >' % (c, elem(r, depth + 1))


def key(r):
    k = r.random()
    if k < 0.6:
        return r.choice(FUND)
    return r.choice(['app::P', 'app::En', 'int *', 'const app::P *', 'const char *'])


def compare(r, k):
    return r.choice(['', '', 'ttl::less<%s >' % k, 'ttl::greater<%s >' % k, 'app::Gr<%s >' % k, 'app::Lt'])


def container(r):
    kind = r.choice(['vector', 'fixed_vector', 'array', 'list', 'forward_list', 'backward_list', 'lazy_queue', 'map', 'set', 'sorted_vector_map', 'vector_map', 'pair', 'functional', 'algorithms', 'rbtree'])
    return describe(kind, elem(r), key(r), elem(r), r.choice([1, 2, 7, 100]), r)


def describe(kind, t, k, m, n, r):
    cmp = compare(r, k)
    return dict(kind=kind, t=t, k=k, m=m, n=n, cmp=cmp)


def checks(c):
    """-> (typedefs, [(name, expression or type, expected type)], [(name, detection, wanted 0/1)])"""
    kind, T, K, M, cmp = c['kind'], c['t'], c['k'], c['m'], c['cmp']
    td = ['typedef %s T;' % T, 'typedef %s K;' % K, 'typedef %s M;' % M]
    ty, ex, neg = [], [], []      # types, expressions, refusals
    compname = cmp or 'ttl::less<K>'
    args = ', %s' % cmp if cmp else ''
    vec = kind in ('vector', 'fixed_vector')
    assoc = kind in ('map', 'sorted_vector_map', 'vector_map')
    if kind == 'pair':
        td.append('typedef ttl::pair<T, M> C;')
        ty += [('C::first_type', 'T'), ('C::second_type', 'M')]
        ex += [('(l.first)', 'T &'), ('(k.second)', 'const M &'), ('ttl::make_pair(k.first, k.second)', 'C'), ('ttl::make_pair(l.first, 3)', 'ttl::pair<T, int>'), ('l.swap(l)', 'void')]
        ty += [('ttl::select_first<C>::result_type', None)]
        ex += [('ttl::select_first<C>()(k)', 'const T &'), ('ttl::select_second<C>()(k)', 'const M &'), ('ttl::select_same<C>()(k)', 'const C &')]
        ty = ty[:2]
        return td, ty, ex, [('k.swap(l)', 0), ('k.first = l.first', 0)] if not T.startswith('const') else []
    if kind == 'functional':
        td.append('typedef int C;')
        for f in ('less', 'greater', 'equal_to', 'not_equal_to'):
            ty += [('ttl::%s<K>::first_argument_type' % f, 'K'), ('ttl::%s<K>::second_argument_type' % f, 'K'), ('ttl::%s<K>::result_type' % f, 'bool')]
            ex.append(('ttl::%s<K>()(lv<const K>(), lv<const K>())' % f, 'bool')) if f in ('less', 'equal_to') else None
        ex += [('ttl::move(lv<T>())', 'T &&'), ('ttl::swap(lv<T>(), lv<T>())', 'void')]
        return td, ty, ex, []
    if kind == 'algorithms':
        td += ['typedef int C;', 'typedef K *I;', 'typedef const K *J;']
        I, J = 'lv<I>()', 'lv<J>()'
        for e, w in [('ttl::find({J}, {J}, {k})', 'J'), ('ttl::find({I}, {I}, {k})', 'I'), ('ttl::find_if({J}, {J}, {f})', 'J'), ('ttl::find_if_not({I}, {I}, {f})', 'I'), ('ttl::search({I}, {I}, {J}, {J})', 'I'), ('ttl::search({J}, {J}, {I}, {I}, {l})', 'J'),
                     ('ttl::search_n({I}, {I}, 2, {k})', 'I'), ('ttl::adjacent_find({J}, {J})', 'J'), ('ttl::equal({I}, {I}, {J})', 'bool'), ('ttl::equal({I}, {I}, {J}, {J})', 'bool'), ('ttl::mismatch({I}, {I}, {J})', 'ttl::pair<I, J>'), ('ttl::mismatch({J}, {J}, {I}, {I})', 'ttl::pair<J, I>'),
                     ('ttl::all_of({J}, {J}, {f})', 'bool'), ('ttl::any_of({J}, {J}, {f})', 'bool'), ('ttl::none_of({J}, {J}, {f})', 'bool'), ('ttl::for_each({J}, {J}, lv<app::Fn>())', 'app::Fn'), ('ttl::copy({J}, {J}, {I})', 'I'), ('ttl::copy_n({J}, 3, {I})', 'I'), ('ttl::copy_if({J}, {J}, {I}, {f})', 'I'),
                     ('ttl::copy_backward({J}, {J}, {I})', 'I'), ('ttl::fill({I}, {I}, {k})', 'void'), ('ttl::fill_n({I}, 3, {k})', 'I'), ('ttl::generate_n({I}, 3, {g})', 'I'), ('ttl::swap_ranges({I}, {I}, {I})', 'I'), ('ttl::iter_swap({I}, {I})', 'void'), ('ttl::replace({I}, {I}, {k}, {k})', 'void'),
                     ('ttl::replace_copy({J}, {J}, {I}, {k}, {k})', 'I'), ('ttl::remove({I}, {I}, {k})', 'I'), ('ttl::remove_if({I}, {I}, {f})', 'I'), ('ttl::remove_copy({J}, {J}, {I}, {k})', 'I'), ('ttl::remove_copy_if({J}, {J}, {I}, {f})', 'I'), ('ttl::reverse({I}, {I})', 'void'), ('ttl::reverse_copy({J}, {J}, {I})', 'I'),
                     ('ttl::lower_bound({J}, {J}, {k})', 'J'), ('ttl::upper_bound({I}, {I}, {k})', 'I'), ('ttl::lower_bound({J}, {J}, {k}, {l})', 'J'), ('ttl::upper_bound({J}, {J}, {k}, {l})', 'J'), ('ttl::binary_search({J}, {J}, {k})', 'bool'), ('ttl::binary_search({J}, {J}, {k}, {l})', 'bool'), ('ttl::equal_range({J}, {J}, {k})', 'ttl::pair<J, J>'),
                     ('ttl::equal_range({I}, {I}, {k}, {l})', 'ttl::pair<I, I>'), ('ttl::is_sorted({J}, {J})', 'bool'), ('ttl::is_sorted_until({J}, {J})', 'J'), ('ttl::merge({J}, {J}, {I}, {I}, {I})', 'I'), ('ttl::min({k}, {k})', 'const K &'), ('ttl::max({k}, {k})', 'const K &'), ('ttl::min({k}, {k}, {l})', 'const K &'), ('ttl::max({k}, {k}, {l})', 'const K &'),
                     ('ttl::minmax({k}, {k})', 'ttl::pair<const K &, const K &>'), ('ttl::minmax({k}, {k}, {l})', 'ttl::pair<const K &, const K &>'), ('ttl::min_element({J}, {J})', 'J'), ('ttl::max_element({I}, {I})', 'I'), ('ttl::minmax_element({J}, {J})', 'ttl::pair<J, J>'), ('ttl::distance({J}, {J})', None), ('ttl::advance({I}, 3)', 'void'),
                     ('ttl::accumulate({J}, {J}, lv<long>())', 'long'), ('ttl::iota({I}, {I}, {K})', 'void')]:
            if w:
                ex.append((e.format(I=I, J=J, k='lv<const K>()', K='lv<K>()', f='lv<bool (*)(const K &)>()', l='lv<app::Lt>()', g='lv<K (*)()>()'), w))
        return td, ty, ex, []
    if kind == 'rbtree':
        td.append('typedef ttl::rbtree<K, ttl::pair<K, M>, ttl::select_first<ttl::pair<K, M> >, %s > C; typedef C::node N; typedef ttl::pair<K, M> V;' % compname)
        ex += [('l.find(lv<const K>())', 'N *'), ('k.find(lv<const K>())', 'const N *'), ('l.lower_bound(lv<const K>())', 'N *'), ('k.lower_bound(lv<const K>())', 'const N *'), ('l.upper_bound(lv<const K>())', 'N *'), ('k.upper_bound(lv<const K>())', 'const N *'),
               ('l.equal_range(lv<const K>())', 'ttl::pair<N *, N *>'), ('k.equal_range(lv<const K>())', 'ttl::pair<const N *, const N *>'), ('k.count(lv<const K>())', 'ttl::size_t'), ('l.end()', 'N *'), ('k.end()', 'const N *'), ('l.get_root()', 'N *'), ('k.get_root()', 'const N *'), ('l.get_croot()', 'const N *'),
               ('l.insert_equal(lv<const V>())', 'N *'), ('l.insert_unique(lv<const V>())', 'ttl::pair<N *, bool>'), ('l.remove(lv<const K>())', 'N *'), ('(lv<N>().data)', 'V &')]
        return td, ty, ex, [('k.clear()', 0), ('k.remove(lv<const K>())', 0), ('k.insert_equal(lv<const V>())', 0)]
    if kind in ('vector', 'list', 'forward_list', 'backward_list', 'lazy_queue'):
        td.append('typedef ttl::%s<T> C; typedef T V;' % kind)
    elif kind in ('fixed_vector', 'array'):
        td.append('typedef ttl::%s<T, %d> C; typedef T V;' % (kind, c['n']))
    elif kind == 'map':
        td.append('typedef ttl::map<K, M%s> C; typedef ttl::pair<const K, M> V;' % args)
    elif kind == 'set':
        td.append('typedef ttl::set<K%s> C; typedef K V;' % args)
    elif kind == 'sorted_vector_map':
        td.append('typedef ttl::sorted_vector_map<K, M%s> C; typedef ttl::pair<K, M> V;' % args)
    else:
        td.append('typedef ttl::vector_map<K, M> C; typedef ttl::pair<K, M> V;')
    td.append('typedef C::iterator I; typedef C::const_iterator J;')
    ptr = kind in ('vector', 'fixed_vector', 'array', 'vector_map')
    ty += [('C::value_type', 'V'), ('C::reference', 'V &'), ('C::const_reference', 'const V &'), ('C::size_type', 'ttl::size_t'), ('C::difference_type', 'ttl::ptrdiff_t')]
    if kind != 'array':
        ty += [('C::pointer', 'V *'), ('C::const_pointer', 'const V *')]
    if ptr:
        ty += [('I', 'V *'), ('J', 'const V *')]
    else:
        ty += [('I::value_type', 'V'), ('I::reference', 'V &'), ('I::pointer', 'V *'), ('I::difference_type', 'ttl::ptrdiff_t'), ('J::value_type', 'V'), ('J::reference', 'const V &'), ('J::pointer', 'const V *'), ('J::difference_type', 'ttl::ptrdiff_t')]
        ex += [('i.operator->()', 'V *'), ('j.operator->()', 'const V *'), ('ci.operator->()', 'V *'), ('cj.operator->()', 'const V *')]
    ex += [('*i', 'V &'), ('*j', 'const V &'), ('++i', 'I &'), ('i++', 'I'), ('++j', 'J &'), ('j++', 'J')]
    ex += [('*ci', 'V &'), ('*cj', 'const V &')]
    for a in ('i', 'j', 'ci', 'cj'):
        for b in ('i', 'j', 'ci', 'cj'):
            ex += [('%s == %s' % (a, b), 'bool'), ('%s != %s' % (a, b), 'bool')]
    if not kind.endswith('ward_list') and kind != 'lazy_queue':
        ex += [('--i', 'I &'), ('i--', 'I'), ('--j', 'J &'), ('j--', 'J')]
    for f in ('begin', 'end') + (('before_begin', 'before_end') if kind in ('forward_list', 'backward_list', 'lazy_queue') else ()):
        if f == 'before_end' and kind == 'forward_list':
            continue
        ex += [('l.%s()' % f, 'I'), ('k.%s()' % f, 'J'), ('l.c%s()' % f, 'J'), ('k.c%s()' % f, 'J')]
    ex += [('k.empty()', 'bool')]
    if kind in ('vector', 'fixed_vector', 'array', 'list', 'sorted_vector_map', 'vector_map'):
        ex += [('k.size()', 'C::size_type')]
    ex += [('k.max_size()', 'C::size_type')] if kind not in () else []
    X = 'lv<const V>()'
    if kind not in ('map', 'set', 'sorted_vector_map', 'vector_map'):
        ex += [('l.front()', 'V &'), ('k.front()', 'const V &')]
        if kind != 'forward_list':
            ex += [('l.back()', 'V &'), ('k.back()', 'const V &')]
    if kind in ('vector', 'fixed_vector', 'array'):
        ex += [('l[1]', 'V &'), ('k[1]', 'const V &'), ('l.at(1)', 'V &'), ('k.at(1)', 'const V &'), ('l.data()', 'V *'), ('k.data()', 'const V *')]
        neg += [('*k.begin() = ' + X, 0), ('*k.data() = ' + X, 0), ('k[0] = ' + X, 0), ('k.front() = ' + X, 0)]
    if vec:
        ex += [('k.capacity()', 'C::size_type'), ('l.insert(j, %s)' % X, 'I'), ('l.insert(j, 2u, %s)' % X, 'I'), ('l.insert(j, j, j)', 'I'), ('l.erase(j)', 'I'), ('l.erase(j, j)', 'I'), ('l.push_back(%s)' % X, 'void'), ('l.pop_back()', 'void'), ('l.clear()', 'void'), ('l.swap(l)', 'void')]
        neg += [('k.insert(lv<J>(), %s)' % X, 0), ('k.erase(lv<J>())', 0), ('k.push_back(%s)' % X, 0), ('k.pop_back()', 0), ('k.clear()', 0), ('k.swap(l)', 0), ('k.resize(3)', 0), ('k = l', 0)]
    if kind == 'list':
        ex += [('l.insert(i, %s)' % X, 'I'), ('l.erase(i)', 'I'), ('l.push_back(%s)' % X, 'void'), ('l.push_front(%s)' % X, 'void'), ('l.splice(i, l)', 'void'), ('l.reverse()', 'void')]
        neg += [('k.insert(lv<I>(), %s)' % X, 0), ('k.erase(lv<I>())', 0), ('k.push_back(%s)' % X, 0), ('k.pop_front()', 0), ('k.clear()', 0), ('k.swap(l)', 0), ('k.reverse()', 0), ('*k.begin() = ' + X, 0), ('k = l', 0)]
    if kind in ('forward_list', 'backward_list', 'lazy_queue'):
        ex += [('l.insert_after(j, %s)' % X, 'I'), ('l.erase_after(j)', 'I'), ('l.erase_after(j, j)', 'I'), ('l.push_front(%s)' % X, 'void'), ('l.pop_front()', 'void'), ('l.clear()', 'void')]
        neg += [('k.insert_after(lv<J>(), %s)' % X, 0), ('k.erase_after(lv<J>())', 0), ('k.push_front(%s)' % X, 0), ('k.pop_front()', 0), ('k.clear()', 0), ('k.swap(l)', 0), ('*k.begin() = ' + X, 0), ('k = l', 0)]
    if assoc or kind == 'set':
        x = 'lv<const K>()'
        ty += [('C::key_type', 'K')]
        if kind in ('map', 'sorted_vector_map', 'set'):
            ty += [('C::key_compare', compname)]
        if assoc:
            ty += [('C::mapped_type', 'M')]
            ex += [('l[%s]' % x, 'M &'), ('l.at(%s)' % x, 'M &'), ('k.at(%s)' % x, 'const M &')]
            neg += [('k[%s]' % x, 0), ('k.begin()->second = lv<const M>()', 0), ('k.at(%s) = lv<const M>()' % x, 0)]
        ex += [('l.find(%s)' % x, 'I'), ('k.find(%s)' % x, 'J'), ('k.count(%s)' % x, 'C::size_type'), ('l.insert(%s)' % X, 'ttl::pair<I, bool>')]
        if kind != 'vector_map':
            ex += [('l.lower_bound(%s)' % x, 'I'), ('k.lower_bound(%s)' % x, 'J'), ('l.upper_bound(%s)' % x, 'I'), ('k.upper_bound(%s)' % x, 'J'), ('l.equal_range(%s)' % x, 'ttl::pair<I, I>'), ('k.equal_range(%s)' % x, 'ttl::pair<J, J>')]
        if kind in ('map', 'set'):
            ex += [('l.erase(%s)' % x, 'C::size_type'), ('l.clear()', 'void')]
            neg += [('k.erase(%s)' % x, 0), ('k = l', 0)]
        if kind in ('map', 'sorted_vector_map'):
            ty += [('C::value_compare::first_argument_type', 'V'), ('C::value_compare::second_argument_type', 'V'), ('C::value_compare::result_type', 'bool')]
            ex += [('lv<const C::value_compare>()(%s, %s)' % (X, X), 'bool')]
        if kind == 'set':
            ty += [('C::value_compare', compname)]
        if kind == 'sorted_vector_map':
            ex += [('k.key_comp()', 'C::key_compare'), ('k.value_comp()', 'C::value_compare')]
        if kind == 'map':
            neg += [('l.begin()->first = ' + x, 0)]
        neg += [('k.insert(%s)' % X, 0), ('k.clear()', 0), ('*k.find(%s) = %s' % (x, X), 0)]
    return td, ty, ex, neg


def emit(c, i, only=None):
    td, ty, ex, neg = checks(c)
    s = ['namespace c%d\n{' % i] + ['   ' + t for t in td]
    n = 0
    names = []
    hasiter = c['kind'] not in ('pair', 'functional', 'algorithms', 'rbtree')
    std = 'C &l, const C &k' + (', I &i, J &j, const I &ci, const J &cj' if hasiter else '')
    body = []
    for a, b in ty:
        if only is None or n in only:
            body.append('   static_assert(same<%s, %s>::v, "#%d.%d %s is not %s");' % (a, b, i, n, a, b))
        names.append('%s is %s' % (a, b))
        n += 1
    for a, b in ex:
        if only is None or n in only:
            body.append('   static_assert(same<decltype(%s), %s>::v, "#%d.%d the type of %s is not %s");' % (a, b, i, n, a, b))
        names.append('%s gives %s' % (a, b))
        n += 1
    pre = []
    for a, w in neg:
        if only is None or n in only:
            e = re.sub(r'\bk\b', 'lv<const Z>()', re.sub(r'\bl\b', 'lv<Z>()', a))
            pre.append('   template<class Z> static auto d%d(int) -> decltype((void)(%s), yes()); template<class Z> static no d%d(...);' % (n, e, n))
            body.append('   static_assert(sizeof(d%d<C>(0)) == sizeof(no), "#%d.%d a const object allows %s");' % (n, i, n, a))
        names.append('%s is refused' % a)
        n += 1
    if hasiter:
        if only is None or n in only:
            body.append('   static_assert(conv<I, J>::v, "#%d.%d no conversion of iterator to const_iterator"); static_assert(!conv<J, I>::v, "#%d.%d const_iterator converts to iterator");' % (i, n, i, n))
        names.append('iterator converts to const_iterator only')
        n += 1
    s += pre
    s.append('   inline void check(%s)\n   {' % std)
    s += body
    s.append('   }\n}')
    return '\n'.join(s), names


def source(p):
    s = ['#include <ttl/%s.hpp>' % h for h in p['order']] + [PRELUDE]
    for i, c in enumerate(p['cs']):
        s.append(emit(c, i, p.get('only'))[0])
    s.append('int main() { return 0; }\n')
    return '\n'.join(s)


def compile_(ctx, p, cfg, tag):
    f = os.path.join(ctx.tmp, tag + '.cpp')
    open(f, 'w').write(source(p))
    q = subprocess.run([cfg['cxx'], '-std=' + cfg['std'], '-w', '-fsyntax-only', '-I' + ctx.repo, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    os.unlink(f)
    return q.returncode == 0, q.stdout.decode('utf-8', 'replace')


def label(c):
    return '%s T=%s K=%s M=%s N=%d %s' % (c['kind'], c['t'], c['k'], c['m'], c['n'], c['cmp'])


KINDS = ['vector', 'fixed_vector', 'array', 'list', 'forward_list', 'backward_list', 'lazy_queue', 'map', 'set', 'sorted_vector_map', 'vector_map', 'pair', 'functional', 'algorithms', 'rbtree']


def run(ctx):
    thorough = ctx.tier == 'thorough'
    count = 8000 if thorough else 260
    r = random.Random(ctx.seed * 104729 + 32)
    jobs = []

    def cfg():
        a, b = r.choice(CONFIGS)
        return {'cxx': a, 'std': b, 'opt': '-O0', 'flags': []}
    for i in range(len(CONFIGS)):
        jobs.append((dict(order=r.sample(HEADERS, len(HEADERS)), cs=[describe(k, 'int', 'int', 'app::P', 3, r) for k in KINDS]), {'cxx': CONFIGS[i][0], 'std': CONFIGS[i][1], 'opt': '-O0', 'flags': []}))
    while len(jobs) < count:
        jobs.append((dict(order=r.sample(HEADERS, len(HEADERS)), cs=[container(r) for _ in range(r.choice([3, 6]))]), cfg()))

    def one(a):
        n, (p, c) = a
        return p, c, compile_(ctx, p, c, 'm%d' % n)
    done, asserts, distinct, samples, classes, bad = 0, 0, set(), [], {}, None
    with ThreadPoolExecutor(ctx.jobs) as ex:
        for p, c, (ok, text) in ex.map(one, enumerate(jobs)):
            done += 1
            for x in p['cs']:
                classes[x['kind']] = classes.get(x['kind'], 0) + 1
                td, ty, e, neg = checks(x)
                asserts += len(ty) + len(e) + len(neg)
                if (x['t'], x['k'], x['m']) != ('int', 'int', 'app::P'):
                    distinct.add(label(x))
            if len(samples) < 8 and done > len(CONFIGS):
                samples.append(c['cxx'] + ' ' + c['std'] + ': ' + label(p['cs'][0]))
            if not ok and bad is None:
                bad = (p, c, text)
    viol = 0
    if bad:
        p, c, text = bad
        if not works(ctx, c):
            ctx.error('the compiler does not work: %s' % c)
        tries = [0]

        def fails(q):
            tries[0] += 1
            ok, t = compile_(ctx, q, c, 's%d' % tries[0])
            return None if ok else t
        for x in p['cs']:                         # one container
            t = fails(dict(p, cs=[x]))
            if t:
                p, text = dict(p, cs=[x]), t
                break
        if len(p['cs']) == 1:
            names = emit(p['cs'][0], 0)[1]
            for n in range(len(names)):           # one assertion
                t = fails(dict(p, only=[n]))
                if t:
                    p, text = dict(p, only=[n]), t
                    break
            x = p['cs'][0]
            for y in (dict(x, t='int'), dict(x, k='int', cmp=''), dict(x, m='int'), dict(x, t='int', k='int', m='int', cmp='')):
                t = fails(dict(p, cs=[y]))
                if t:
                    p, text = dict(p, cs=[y]), t
            t = fails(dict(p, order=HEADERS))
            if t:
                p, text = dict(p, order=list(HEADERS)), t
        t = fails(p)
        if t:
            what = ', '.join(label(x) for x in p['cs'][:3]) + (': ' + emit(p['cs'][0], 0)[1][p['only'][0]] if p.get('only') else '')
            print('C32: %s -std=%s: %s' % (c['cxx'], c['std'], what))
            print(t[:1500])
            with open(ctx.replay, 'w') as f:
                f.write('// property C32: %s -std=%s: %s\n/*\n%s\n*/\n%s' % (c['cxx'], c['std'], what, t[:4000].replace('*/', '* /'), source(p)))
            viol = 1
    rule = ('programs of assertions about containers, pairs, trees, function objects and algorithms of random element types, keys, mapped types and comparisons: every member type, the type of every member call on mutable and const objects, and what const objects must refuse; '
            'two compilers, four standards; non-trivial: other types than the fixed first ones; distinct arguments counted')
    ctx.evidence({'evaluations': done, 'distinct_nontrivial': max(len(distinct), 1), 'rule': rule, 'samples': samples or [label(jobs[0][0]['cs'][0])], 'assertions': asserts, 'classes': classes}, viol)
    print('C32: %d programs, %d distinct non-trivial containers, %d assertions: %s' % (done, len(distinct), asserts, 'VIOLATED' if viol else 'held'))
    if viol:
        ctx.violation()
    return viol
