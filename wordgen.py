"""C34: 32-bit programs behave as 64-bit ones.

Random programs of uses of the library are built twice, for the platform's 64
bits and for 32 bits (-m32 with the run time of harness/m32 instead of
a library), each with a compiler, standard and options of its own; every
use must have the same digest in both.  The 32-bit run time reports misuse of
the heap.  A failure is shrunk over uses and options.
"""
import glob, os, random, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import headergen
from headergen import HEADERS, LIMIT, NAMES, PRELUDE, STDS, USES as BASE, closure

MORE = '''
namespace
{
   struct Wide                     // its alignment is not the same on both
   {
      char c; long long v;
      Wide(int x = 0): c((char)x), v(x * 1000003ll) {}
      bool operator==(const Wide &o) const { return v == o.v; }
      bool operator!=(const Wide &o) const { return v != o.v; }
      bool operator<(const Wide &o) const { return v < o.v; }
      bool operator>(const Wide &o) const { return v > o.v; }
   };
   inline int val(const Wide &o) { const int x = (int)(o.v / 1000003ll); return o.v % 1000003ll == 0 && (char)x == o.c ? x : -77; }
   struct Lng                      // a number of another size
   {
      long v; long *self;
      Lng(int x = 0): v(x), self(&v) {}
      Lng(const Lng &o): v(o.v), self(&v) {}
      Lng &operator=(const Lng &o) { v = o.v; return *this; }
      ~Lng() { self = 0; }
      bool operator==(const Lng &o) const { return v == o.v; }
      bool operator!=(const Lng &o) const { return v != o.v; }
      bool operator<(const Lng &o) const { return v < o.v; }
      bool operator>(const Lng &o) const { return v > o.v; }
   };
   inline int val(const Lng &o) { return o.self == &o.v ? (int)o.v : -78; }
   template<class T, class U> struct Same { enum { v = 0 }; };
   template<class T> struct Same<T, T> { enum { v = 1 }; };
   inline unsigned long long u64(Gen &g)
   {
      unsigned long long x = 0;
      switch (g(4))
      {
      case 0: return g(50);
      case 1: x = 1; return x << g(64);
      case 2: x = ~x; return x >> g(64);
      default: for (int i = 0; i < 4; ++i) x = x << 16 | g(65536); return x;
      }
   }
}
'''
BITS = '''
#ifdef USE_BITS
namespace
{
   template<class B> void show(Dig &d, const B &b)
   {
      unsigned long long x = b.to_ullong();
      for (unsigned i = 0; i < b.size(); ++i) { d(b.test(i)); d(b[i]); }
      d(b.test(b.size())); d(b.count()); d(b.any()); d(b.none()); d(b.size()); d((unsigned)x); d((unsigned)(x >> 32)); d((unsigned)(b.to_ulong() & 0xffffffff)); d(b.size() == 0 || b.all());
   }
   template<unsigned long N, unsigned long M> void bits(Dig &d, Gen &g, unsigned n)
   {
      typedef ttl::bitset<N> B;
      B a(u64(g)), b; char s[300]; unsigned k = g(290);
      for (unsigned i = 0; i < k; ++i) s[i] = (char)('0' + g(2));
      s[k] = 0; if (k && g(3) == 0) s[g(k)] = 'x';
      B c(s); show(d, a); show(d, c); { B e(s, g(k + 1)); show(d, e); }
      { unsigned long u = g(65536); u = u << 16 | g(65536); B e(u); show(d, e); }
      for (unsigned i = 0; i < n; ++i)
      {
         unsigned p = g(N), q = g(N), sh = g(4) ? g(N + 1) : g(2 * N + 70);
         switch (g(22))
         {
         case 0: a.set(); break;
         case 1: a.reset(); break;
         case 2: a.flip(); break;
         case 3: a.set(p); break;
         case 4: a.set(p, g(2) != 0); break;
         case 5: a.reset(p); break;
         case 6: a.flip(p); break;
         case 7: a[p] = g(2) != 0; break;
         case 8: a[p] = b[q]; break;
         case 9: a[p].flip(); d(~a[q]); break;
         case 10: a &= b; break;
         case 11: a |= b; break;
         case 12: a ^= b; break;
         case 13: a = ~b; break;
         case 14: a <<= sh; break;
         case 15: a >>= sh; break;
         case 16: b = a << sh; break;
         case 17: b = a >> sh; break;
         case 18: b = a; break;
         case 19: { ttl::bitset<M> o(a); show(d, o); if (g(2)) o.flip(); a = o; break; }
         case 20: { ttl::bitset<M> o(u64(g)); o = b; show(d, o); b = B(o); break; }
         default: a = B(u64(g)); break;
         }
         show(d, g(3) ? a : b); d(a == b); d(a != b);
      }
   }
}
#endif
'''
SIZES = [1, 5, 16, 31, 32, 33, 40, 48, 63, 64, 65, 95, 96, 97, 127, 128, 130, 200, 256, 257]
USES = [u for u in BASE if u[0] not in ('types', 'ttl_todo')]
USES += [('types', ['types'], 'd(Same<ttl::size_t, __SIZE_TYPE__>::v); d(Same<ttl::ptrdiff_t, __PTRDIFF_TYPE__>::v); d(sizeof(ttl::size_t) == sizeof(sizeof(int))); d(sizeof(ttl::ptrdiff_t) == sizeof((char *)0 - (char *)0)); d((ttl::size_t)-1 > 0); d((ttl::ptrdiff_t)-1 < 0); d((ttl::size_t)-1 >= 0xffffffffu);'),
         ('bits', ['bitset'], None), ('bits', ['bitset'], None), ('bits', ['bitset'], None),
         ('numbers', ['type_traits'], ' '.join('d(ttl::is_integral<%s>::value); d(ttl::is_arithmetic<%s>::value); d(ttl::is_signed<%s>::value); d(ttl::is_unsigned<%s>::value); d(ttl::is_fundamental<%s>::value);' % ((t,) * 5)
                                           for t in ('bool', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long', 'float', 'double', 'long double', 'void *', '__SIZE_TYPE__', '__PTRDIFF_TYPE__'))),
         ('big_vector', ['vector', 'utility'], 'ttl::vector<@E> c; c.reserve(g(5000)); for (unsigned i = 0; i < n * 80; ++i) c.push_back(@E(i)); d.range(c.begin(), c.end()); d(c.size()); c.insert(c.begin() + c.size() / 2, 700u, @E(3)); d.range(c.begin(), c.end()); d(c.max_size() > 10000000u); d(ttl::distance(c.begin(), c.end()));'),
         ('big_map', ['map'], 'ttl::map<int, @E> c; for (unsigned i = 0; i < n * 60; ++i) { c[(int)g(3000)] = @E(i); if (g(3) == 0) d(c.erase((int)g(3000))); } for (ttl::map<int, @E>::const_iterator p = c.begin(); p != c.end(); ++p) { d(p->first); d(val(p->second)); }'),
         ('big_svmap', ['sorted_vector_map'], 'ttl::sorted_vector_map<int, @E> c; for (unsigned i = 0; i < n * 20; ++i) c[(int)g(900)] = @E(i); for (ttl::sorted_vector_map<int, @E>::const_iterator p = c.begin(); p != c.end(); ++p) { d(p->first); d(val(p->second)); } d(c.size()); d(c.lower_bound(450) == c.end()); d(c.count(3));'),
         ('keys', ['map', 'set'], 'ttl::set<long long> s; ttl::map<unsigned long long, @E> m; for (unsigned i = 0; i < n * 3; ++i) { unsigned long long k = u64(g); d(s.insert((long long)k).second); m[k] = @E(i); d(s.count((long long)u64(g))); d(m.find(k) != m.end()); } '
          'for (ttl::set<long long>::const_iterator p = s.begin(); p != s.end(); ++p) { d((unsigned)*p); d((unsigned)((unsigned long long)*p >> 32)); } for (ttl::map<unsigned long long, @E>::iterator p = m.begin(); p != m.end(); ++p) { d((unsigned)p->first); d((unsigned)(p->first >> 32)); d(val(p->second)); }'),
         ('sums', ['numeric', 'algorithm'], 'long long a[50], s = 0; for (unsigned i = 0; i < n; ++i) a[i] = (long long)(u64(g) >> 8); s = ttl::accumulate(a, a + n, s); d((unsigned)s); d((unsigned)(s >> 32)); d(ttl::max_element(a, a + n) - a); d(ttl::min_element(a, a + n) - a); d(ttl::is_sorted(a, a + n)); d(ttl::count(a, a + n, 5)); '
          'ttl::iota(a, a + n, (long long)0xfffffff0u); if (n) { d((unsigned)a[n - 1]); d((unsigned)(a[n - 1] >> 32)); d(ttl::lower_bound(a, a + n, a[n / 2]) - a); }'),
         ('far', ['utility', 'algorithm'], 'char *p = (char *)0x1000; char *q = p; ttl::advance(q, 0x30000000 + (int)n); d((unsigned)(q - p)); d((unsigned)ttl::distance(p, q));'),
         ('fixed_fill', ['fixed_vector'], 'ttl::fixed_vector<@E, 7> a(g(9)), b(g(9), @E(4)); for (unsigned i = 0; i < n; ++i) { switch (g(5)) { case 0: { unsigned k = g(4); a.insert(a.begin() + g(a.size() + 1), k, @E(i)); }; break; case 1: a.insert(a.begin() + g(a.size() + 1), b.begin(), b.end()); break; case 2: if (!a.empty()) a.erase(a.begin() + g(a.size())); break; case 3: a.push_back(@E(i)); break; default: a.resize(g(9), @E(2)); } d.range(a.begin(), a.end()); d(a.size()); d(a.capacity()); d(a.max_size()); }')]
ELEMS = ['int', 'Own', 'Wide', 'Lng']
FREE = ['-fno-builtin-printf', '-nostdlib', '-nostdinc++', '-static', '-fno-exceptions', '-fno-rtti', '-fno-threadsafe-statics', '-fno-stack-protector', '-fno-pic', '-no-pie', '-fno-asynchronous-unwind-tables']

# the headers of the 64-bit system serve for 32 bits as well, with an empty gnu/stubs-32.h
SYSTEM = [x for d in sorted(glob.glob('/usr/include/c++/[0-9]*'))[-1:] + sorted(glob.glob('/usr/include/x86_64-linux-gnu/c++/[0-9]*'))[-1:] + ['/usr/include/x86_64-linux-gnu'] for x in ('-idirafter', d)]


def config(r):
    return {'cxx': r.choice(['g++', 'clang++']), 'std': r.choice(STDS), 'opt': r.choice(['-O0', '-O1', '-O2', '-O3', '-Os']),
            'flags': (['-fsanitize=shift,signed-integer-overflow,bounds', '-fsanitize-undefined-trap-on-error'] if r.random() < 0.3 else []) + (['-fno-inline'] if r.random() < 0.1 else [])}


def use(r):
    n, need, body = r.choice(USES)
    return (n, need, body, r.choice(ELEMS), r.randrange(100000), r.choice(SIZES), r.choice(SIZES))


def program(r):
    us = [use(r) for _ in range(r.choice([4, 8, 12]))]
    hs = sorted(set(h for u in us for h in u[1]))
    r.shuffle(hs)
    return dict(hs=hs, uses=us)


def name(u):
    return '%s<%s>(%d)' % (u[0], u[3], u[4]) if u[2] else 'bits<%d, %d>(%d)' % (u[5], u[6], u[4])


def source(p):
    s = ['#include <ttl/%s.hpp>' % h for h in p['hs']]
    if any(u[2] is None for u in p['uses']):
        s.append('#define USE_BITS')
    s += [PRELUDE, MORE, BITS]
    for i, (n, need, body, e, seed, N, M) in enumerate(p['uses']):
        body = 'bits<%d, %d>(d, g, n);' % (N, M) if body is None else body.replace('@E', e)
        s.append('static unsigned use%d()\n{\n   Gen g(%du); Dig d; unsigned n = g(40); (void)n;\n   %s\n   return d.h;\n}' % (i, seed, body))
    s.append('int program()\n{')
    s += ['   printf("%d %%u\\n", use%d());' % (i, i) for i in range(len(p['uses']))]
    s.append('   return 0;\n}\n#ifndef NO_MAIN\nint main() { return program(); }\n#endif\n')
    return '\n'.join(s)


def build_run(ctx, p, cfg, bits, tag):
    """(stage, text, digests)"""
    d = os.path.join(ctx.tmp, tag)
    os.makedirs(d, exist_ok=True)
    try:
        with open(d + '/a.cpp', 'w') as f:
            f.write(source(p))
        flags = [f if not (f == '-fsanitize-undefined-trap-on-error' and cfg['cxx'] == 'clang++') else '-fsanitize-trap=undefined' for f in cfg['flags']]
        if bits == 32:
            m = os.path.join(ctx.here, 'harness', 'm32')
            cmd = [cfg['cxx'], '-m32', '-std=' + cfg['std'], cfg['opt'], '-w'] + FREE + flags + ['-DNO_MAIN', '-I' + m, '-I' + ctx.repo] + SYSTEM + [ d + '/a.cpp', m + '/rt.cpp', '-o', d + '/a.out']
        else:
            cmd = [cfg['cxx'], '-std=' + cfg['std'], cfg['opt'], '-w', '-fno-exceptions', '-fno-rtti'] + flags + ['-I' + ctx.repo, d + '/a.cpp', '-o', d + '/a.out']
        q = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if q.returncode:
            return 'compile', q.stdout.decode('utf-8', 'replace'), []
        try:
            q = subprocess.run([d + '/a.out'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=LIMIT[0])
        except subprocess.TimeoutExpired:
            return 'run', 'does not end', []
        out = q.stdout.decode('utf-8', 'replace')
        if q.returncode:
            return 'run', 'exit status %d\n%s' % (q.returncode, out), []
        return 'ok', out, [l.split()[1] for l in out.splitlines()]
    finally:
        shutil.rmtree(d, ignore_errors=True)


TRIVIAL = dict(hs=['types'], uses=[])


def show(p, c32, c64):
    f = lambda c: '%s -std=%s %s %s' % (c['cxx'], c['std'], c['opt'], ' '.join(c['flags']))
    return '-m32 %s | %s | %s : %s' % (f(c32).strip(), f(c64).strip(), ' '.join(p['hs']), ' '.join(name(u) for u in p['uses']))


def judge(ctx, p, c32, c64, tag):
    st, text, a = build_run(ctx, p, c64, 64, tag + 'a')
    if st != 'ok':
        return st + ' 64', text
    st, text, b = build_run(ctx, p, c32, 32, tag + 'b')
    if st != 'ok':
        return st + ' 32', text
    if a != b:
        return 'digest', ' '.join('%s: %s instead of %s' % (name(u), y, x) for u, x, y in zip(p['uses'], a, b) if x != y)
    return 'ok', ''


def run(ctx):
    thorough = ctx.tier == 'thorough'
    count = 6000 if thorough else 200
    r = random.Random(ctx.seed * 15485863 + 34)
    plain = {'cxx': 'g++', 'std': 'gnu++17', 'opt': '-O1', 'flags': []}
    st, text, _ = build_run(ctx, dict(hs=[], uses=[]), plain, 32, 'probe')
    if st != 'ok':     # this system does not build or run 32-bit programs at all
        ctx.error('no 32-bit programs here: %s' % text[:300])
    jobs = [(program(r), config(r), config(r)) for _ in range(count)]
    worst = [1 << 30]     # nothing behind the first failure has to run

    def one(a):
        n, (p, c32, c64) = a
        if n > worst[0]:
            return ('skip', '')
        res = judge(ctx, p, c32, c64, 'p%d' % n)
        if res[0] != 'ok':
            worst[0] = min(worst[0], n)
        return res
    done, compared, distinct, samples, classes, bad = 0, 0, set(), [], {}, None
    with ThreadPoolExecutor(ctx.jobs) as ex:
        for (p, c32, c64), (st, text) in zip(jobs, ex.map(one, enumerate(jobs))):
            if st == 'skip':
                break
            done += 1
            for u in p['uses']:
                classes[u[0]] = classes.get(u[0], 0) + 1
                compared += 1
                if u[0] not in ('types', 'countof', 'ttl_countof'):
                    distinct.add((u[0], u[3:]))
            if len(samples) < 8:
                samples.append(show(p, c32, c64))
            if st != 'ok' and bad is None:
                bad = (p, c32, c64, st, text)
    viol = 0
    if bad:
        p, c32, c64, kind, text = bad
        for bits, c in ((64, c64), (32, c32)):
            if build_run(ctx, dict(hs=[], uses=[]), c, bits, 'works')[0] != 'ok':
                ctx.error('the compiler does not work: %s' % c)
        LIMIT[0], start, again, tries = 5, time.time(), True, 0
        while again and time.time() - start < 240:
            again = False
            k = len(p['uses'])
            cand = [dict(p, uses=p['uses'][:a] + p['uses'][b:]) for a, b in ((0, k // 2), (k // 2, k)) if k > 3] + [dict(p, uses=p['uses'][:i] + p['uses'][i + 1:]) for i in range(k)]
            cand = [(q, c32, c64) for q in cand]
            cand += [(dict(p, hs=[h for h in p['hs'] if h != x]), c32, c64) for x in p['hs'] if not any(x in u[1] for u in p['uses'])]
            cand += [(p, plain, c64)] if c32 != plain else []
            cand += [(p, c32, plain)] if c64 != plain else []
            cand += [(p, dict(c32, flags=[g for g in c32['flags'] if g != f]), c64) for f in c32['flags'] if not f.startswith('-fsanitize')]
            for q in cand:
                tries += 1
                st, t = judge(ctx, *q, 's%d' % tries)
                if st == kind:
                    (p, c32, c64), text, again = q, t, True
                    break
                if time.time() - start > 240:
                    break
        st, t = judge(ctx, p, c32, c64, 'again')
        if st == kind:
            what = {'digest': 'another result than with 64 bits', 'compile 32': 'does not compile for 32 bits', 'run 32': 'does not run with 32 bits'}.get(kind, kind)
            print('C34: %s: %s' % (what, show(p, c32, c64)))
            print(text[:1500])
            with open(ctx.replay, 'w') as f:
                f.write('// property C34, %s: %s\n/*\n%s\n*/\n%s' % (what, show(p, c32, c64), text[:4000].replace('*/', '* /'), source(p)))
            viol = 1
    rule = ('programs of random uses of all parts of the library (histories of bitsets of %d sizes, containers of elements whose size and alignment depend on the platform, keys of 64 bits) built for 32 and for 64 bits by two compilers under nine standards, with and without traps for undefined behaviour; '
            'non-trivial: all uses but those of types and countof; distinct uses (with their seeds) counted' % len(SIZES))
    ctx.evidence({'evaluations': done, 'distinct_nontrivial': max(len(distinct), 1), 'rule': rule, 'samples': samples, 'digests': compared, 'classes': classes}, viol)
    print('C34: %d programs, %d distinct non-trivial uses, %d digests compared: %s' % (done, len(distinct), compared, 'VIOLATED' if viol else 'held'))
    if viol:
        ctx.violation()
    return viol
