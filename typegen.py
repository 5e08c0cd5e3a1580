"""C25: the traits of generated types.

Types are generated as trees over the type constructors of the language, with
the expected value of every trait computed from the tree; a translation unit
asserts some hundreds of them and is compiled (not run) by several compilers,
standards and character configurations.  From C++11 on the expectation is also
asserted of the std trait of the same name, as a check of the oracle itself.
A failure is shrunk over the tree and written as a compilable file.
"""
import json, os, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor

# base types: (spelling, class)
UNSIGNED = ['unsigned char', 'unsigned short', 'unsigned int', 'unsigned long', 'unsigned long long']
SIGNED = ['signed char', 'short', 'int', 'long', 'long long']
FLOAT = ['float', 'double', 'long double']
OTHER = ['S', 'U', 'E', 'D', 'TS<int>', 'TS<S>']
OTHER11 = ['EC', 'ES']
PRELUDE = '''#include <ttl/type_traits.hpp>
struct S { int m; }; union U { int m; char c; }; enum E { e1, e2 }; struct D: S { virtual ~D() {} }; template<typename T> struct TS { T m; };
#if __cplusplus >= 201103L
#include <type_traits>
enum class EC { a }; enum class ES: signed char { a };
#endif
template<class A, class B> struct eq_ { enum { value = 0 }; };
template<class A> struct eq_<A, A> { enum { value = 1 }; };
#if __cplusplus >= 201103L
#define CK(id, c) static_assert(c, "CK " #id);
#define ORACLE(id, c) static_assert(c, "ORACLE " #id);
#else
#define CK(id, c) typedef char ck_##id[(c) ? 1 : -1];
#define ORACLE(id, c)
#endif
'''


def cv(c, v, t):
    """the type t with const (c) and volatile (v) added"""
    if not c and not v or t[0] in ('lref', 'rref', 'fn'):
        return t
    if t[0] == 'cv':
        return ('cv', c or t[1], v or t[2], t[3])
    if t[0] == 'arr':
        return ('arr', t[1], cv(c, v, t[2]))
    return ('cv', c, v, t)


def top(t):
    """its qualifiers: those of the elements for an array"""
    if t[0] == 'cv':
        return t[1], t[2]
    if t[0] == 'arr':
        return top(t[2])
    return False, False


def strip(t, c=True, v=True):
    if t[0] == 'cv':
        return cv(t[1] and not c, t[2] and not v, t[3])
    if t[0] == 'arr':
        return ('arr', t[1], strip(t[2], c, v))
    return t


def plain(t):
    return t[3] if t[0] == 'cv' else t


def gen(r, depth, new, where='any'):
    """where: any | object (not void, reference, function, unknown bound) | value (usable as a result)"""
    for _ in range(100):
        t = gen1(r, depth, new)
        p = plain(t)
        if where == 'any':
            return t
        if where == 'object' and not (p[0] in ('lref', 'rref', 'fn') or p == ('base', 'void') or p[0] == 'arr' and p[1] is None):
            return t
        if where == 'result' and p[0] not in ('fn', 'arr'):
            return t
        if where == 'param' and p != ('base', 'void') and p[0] != 'fn' and not (p[0] == 'arr' and p[1] is None):
            return t
    return ('base', 'int')


def gen1(r, depth, new):
    k = r.random()
    if depth == 0 or k < 0.25:
        pool = r.choice([UNSIGNED + ['char', 'wchar_t', 'bool'], SIGNED + ['char', 'wchar_t'], FLOAT, ['void'], OTHER + (OTHER11 if new else [])])
        return ('base', r.choice(pool))
    if k < 0.45:
        return cv(r.random() < 0.6, r.random() < 0.5, gen(r, depth - 1, new))
    if k < 0.60:
        for _ in range(20):
            t = gen(r, depth - 1, new)
            if plain(t)[0] not in ('lref', 'rref'):
                return ('ptr', t)
    if k < 0.72:
        for _ in range(20):
            t = gen(r, depth - 1, new)
            if plain(t)[0] not in ('lref', 'rref') and plain(t) != ('base', 'void'):
                return ('rref' if new and r.random() < 0.5 else 'lref', t)
    if k < 0.84:
        t = gen(r, depth - 1, new, 'object')
        return ('arr', r.choice([None, 1, 2, 7, 65536]), t)
    if k < 0.92:
        return ('fn', gen(r, depth - 1, new, 'result'), tuple(gen(r, depth - 1, new, 'param') for _ in range(r.randrange(3))), r.random() < 0.15)
    if k < 0.97:
        for _ in range(20):
            t = gen(r, depth - 1, new)
            if plain(t)[0] not in ('lref', 'rref') and plain(t) != ('base', 'void') and plain(t)[0] != 'fn':
                return ('mptr', t)
    return ('mfn', gen(r, 0, new, 'result'), gen(r, 0, new, 'param'), r.random() < 0.5)


def depth_of(t):
    return 1 + max([depth_of(x) for x in kids(t)] or [0])


def kids(t):
    k = t[0]
    if k == 'cv':
        return [t[3]]
    if k in ('ptr', 'lref', 'rref', 'mptr'):
        return [t[1]]
    if k == 'arr':
        return [t[2]]
    if k == 'fn':
        return [t[1]] + list(t[2])
    if k == 'mfn':
        return [t[1], t[2]]
    return []


class Emitter:
    def __init__(self):
        self.lines, self.n, self.seen = [], 0, {}

    def name(self, t):
        if t in self.seen:
            return self.seen[t]
        k = t[0]
        sub = [self.name(x) for x in kids(t)]
        self.n += 1
        n = 't%d' % self.n
        if k == 'base':
            d = 'typedef %s %s;' % (t[1], n)
        elif k == 'cv':
            d = 'typedef %s%s%s %s;' % ('const ' if t[1] else '', 'volatile ' if t[2] else '', sub[0], n)
        elif k == 'ptr':
            d = 'typedef %s *%s;' % (sub[0], n)
        elif k == 'lref':
            d = 'typedef %s &%s;' % (sub[0], n)
        elif k == 'rref':
            d = 'typedef %s &&%s;' % (sub[0], n)
        elif k == 'arr':
            d = 'typedef %s %s[%s];' % (sub[0], n, '' if t[1] is None else t[1])
        elif k == 'fn':
            d = 'typedef %s %s(%s%s);' % (sub[0], n, ', '.join(sub[1:]), (', ...' if sub[1:] else '...') if t[3] else '')
        elif k == 'mptr':
            d = 'typedef %s S::*%s;' % (sub[0], n)
        else:
            d = 'typedef %s (S::*%s)(%s)%s;' % (sub[0], n, sub[1], ' const' if t[3] else '')
        self.lines.append(d)
        self.seen[t] = n
        return n


VALUES = ['is_const', 'is_volatile', 'is_void', 'is_integral', 'is_floating_point', 'is_arithmetic', 'is_fundamental',
          'is_pointer', 'is_array', 'is_signed', 'is_unsigned', 'is_scalar']
TYPES = ['remove_const', 'remove_volatile', 'remove_cv', 'remove_reference']
OWN = {'is_signed', 'is_unsigned', 'is_scalar'}   # narrower than the std traits, by definition


def value(trait, t, cfg):
    p = plain(t)
    b = p[1] if p[0] == 'base' else None
    integral = b in UNSIGNED or b in SIGNED or b in ('char', 'wchar_t', 'bool')
    if trait == 'is_const':
        return top(t)[0]
    if trait == 'is_volatile':
        return top(t)[1]
    if trait == 'is_void':
        return b == 'void'
    if trait == 'is_integral':
        return integral
    if trait == 'is_floating_point':
        return b in FLOAT
    if trait == 'is_arithmetic':
        return integral or b in FLOAT
    if trait == 'is_fundamental':
        return integral or b in FLOAT or b == 'void'
    if trait == 'is_pointer':
        return p[0] == 'ptr'
    if trait == 'is_array':
        return p[0] == 'arr'
    if trait == 'is_signed':
        return b in SIGNED or b == 'char' and not cfg['uchar'] or b == 'wchar_t' and not cfg['uwchar']
    if trait == 'is_unsigned':
        return b in UNSIGNED or b == 'char' and cfg['uchar'] or b == 'wchar_t' and cfg['uwchar']
    if trait == 'is_scalar':
        return integral or b in FLOAT or p[0] == 'ptr'
    raise KeyError(trait)


def result(trait, t):
    if trait == 'remove_const':
        return strip(t, True, False)
    if trait == 'remove_volatile':
        return strip(t, False, True)
    if trait == 'remove_cv':
        return strip(t)
    return t[1] if t[0] in ('lref', 'rref') else t


def others(t, r):
    """types which are not t"""
    res = [('base', 'S') if t != ('base', 'S') else ('base', 'int')]
    p = plain(t)
    if p[0] not in ('lref', 'rref'):
        res.append(('ptr', t))
        if p != ('base', 'void'):
            res.append(('lref', t))
    if p[0] not in ('lref', 'rref', 'fn'):
        for c, v in ((True, False), (False, True)):
            x = cv(c, v, t)
            if x != t:
                res.append(x)
    if t[0] == 'cv':
        res.append(t[3])
    if t[0] == 'arr':
        res.append(('arr', 3 if t[1] != 3 else 4, t[2]))
        res.append(('ptr', t[2]))
    return r.sample(res, min(2, len(res)))


CONFIGS = [
    dict(cxx='g++', std='c++98'), dict(cxx='g++', std='c++11'), dict(cxx='g++', std='c++14'), dict(cxx='g++', std='gnu++17'), dict(cxx='g++', std='c++20'),
    dict(cxx='clang++', std='c++98'), dict(cxx='clang++', std='c++11'), dict(cxx='clang++', std='c++17'), dict(cxx='clang++', std='c++20'),
    dict(cxx='g++', std='gnu++98', flags=['-funsigned-char']), dict(cxx='g++', std='c++17', flags=['-funsigned-char', '-fshort-wchar']),
    dict(cxx='clang++', std='c++14', flags=['-fshort-wchar', '-funsigned-char']), dict(cxx='g++', std='c++11', flags=['-fshort-wchar']),
]
for c in CONFIGS:
    c.setdefault('flags', [])
    c['new'] = '98' not in c['std']
    c['uchar'] = '-funsigned-char' in c['flags']
    c['uwchar'] = '-fshort-wchar' in c['flags']


def unit(types, cfg, seed, only=None):
    """the text, and the assertion of every line"""
    r = random.Random(seed)
    e = Emitter()
    head = PRELUDE.count('\n')
    at = {}
    k = 0

    def put(tid, trait, line):
        e.lines.append(line)
        at[head + len(e.lines)] = (tid, trait)
    checks = 0
    for i, t in enumerate(types):
        n = e.name(t)
        for trait in VALUES:
            if only and trait != only:
                continue
            want = 'true' if value(trait, t, cfg) else 'false'
            k += 1
            checks += 1
            put(i, trait, 'CK(%d_%s, (ttl::%s<%s>::value) == %s) ' % (k, trait, trait, n, want) +
                ('' if trait in OWN else 'ORACLE(%d, std::%s<%s>::value == %s)' % (k, trait, n, want)))
        for trait in TYPES:
            if only and trait != only:
                continue
            w = e.name(result(trait, t))
            k += 1
            checks += 1
            put(i, trait, 'CK(%d_%s, (eq_<ttl::%s<%s>::type, %s>::value)) ORACLE(%d, (eq_<std::%s<%s>::type, %s>::value))' % (k, trait, trait, n, w, k, trait, n, w))
        if not only or only == 'is_same':
            k += 1
            checks += 1
            put(i, 'is_same', 'CK(%d_is_same, (ttl::is_same<%s, %s>::value))' % (k, n, n))
            for o in others(t, r):
                m = e.name(o)
                k += 1
                checks += 1
                put(i, 'is_same', 'CK(%d_is_same, (!ttl::is_same<%s, %s>::value && !ttl::is_same<%s, %s>::value)) ORACLE(%d, (!std::is_same<%s, %s>::value))' % (k, n, m, m, n, k, n, m))
    return PRELUDE + '\n'.join(e.lines) + '\n', at, checks


def compile_(ctx, text, cfg, name):
    p = os.path.join(ctx.tmp, name + '.cpp')
    with open(p, 'w') as f:
        f.write(text)
    cmd = [cfg['cxx'], '-std=' + cfg['std'], '-fsyntax-only', '-w', '-ftemplate-depth=900'] + (['-fmax-errors=20'] if cfg['cxx'] == 'g++' else ['-ferror-limit=20']) + cfg['flags'] + ['-I' + ctx.repo, p]
    try:
        q = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        rc, out = q.returncode, q.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        rc, out = 124, 'timeout'
    os.unlink(p)
    return rc, out, cmd


def blamed(out, name, at):
    """the assertions the compiler complains about"""
    res = []
    for m in re.finditer(re.escape(name) + r'\.cpp:(\d+)', out):
        n = int(m.group(1))
        if n in at and at[n] not in res:
            res.append(at[n])
    return res


def smaller(t):
    for x in kids(t):
        yield x
    k = t[0]
    if k == 'cv':
        if t[1] and t[2]:
            yield cv(True, False, t[3])
            yield cv(False, True, t[3])
        for x in smaller(t[3]):
            yield cv(t[1], t[2], x)
    elif k in ('ptr', 'lref', 'rref', 'mptr'):
        for x in list(smaller(t[1])) + [('base', 'int')]:
            if plain(x)[0] in ('lref', 'rref') or k != 'ptr' and x == ('base', 'void') or k != 'ptr' and plain(x) == ('base', 'void') or k == 'mptr' and plain(x)[0] == 'fn':
                continue
            yield (k, x)
    elif k == 'arr':
        for x in list(smaller(t[2])) + [('base', 'int')]:
            p = plain(x)
            if not (p[0] in ('lref', 'rref', 'fn') or p == ('base', 'void') or p[0] == 'arr' and p[1] is None):
                yield ('arr', t[1], x)
    elif k == 'fn':
        if t[2] or t[3]:
            yield ('fn', t[1], (), False)
        if t[1] != ('base', 'int'):
            yield ('fn', ('base', 'int'), t[2], t[3])
    elif k == 'base' and t[1] not in ('int', 'void'):
        yield ('base', 'int')


def size(t):
    return (1 + sum(size(x) for x in kids(t))) if t[0] != 'cv' else (t[1] + t[2]) + size(t[3])


def show(t):
    e = Emitter()
    n = e.name(t)
    return ' '.join(e.lines) + ' // ' + n


def run(ctx):
    thorough = ctx.tier == 'thorough'
    batches = 6500 if thorough else 520
    per = 100
    jobs = []
    for b in range(batches):
        cfg = CONFIGS[b % len(CONFIGS)]
        r = random.Random(ctx.seed * 1000003 + b)
        types = [gen(r, r.choice([1, 2, 3, 4, 6, 8]), cfg['new']) for _ in range(per)]
        jobs.append((b, cfg, types))

    def one(job):
        b, cfg, types = job
        text, at, checks = unit(types, cfg, b)
        rc, out, cmd = compile_(ctx, text, cfg, 'u%d' % b)
        return job, rc, out, cmd, text, at, checks
    distinct, evaluations, checks = set(), 0, 0
    bad = None
    samples = []
    with ThreadPoolExecutor(ctx.jobs) as ex:
        for job, rc, out, cmd, text, at, n in ex.map(one, jobs):
            b, cfg, types = job
            evaluations += len(types)
            checks += n
            for t in types:
                if depth_of(t) >= 2:
                    distinct.add(t)
            if b < 3:
                samples += [show(t) for t in types[:6]]
            if rc != 0 and bad is None:
                bad = (job, rc, out, cmd, text, at)
    viol = 0
    if bad:
        (b, cfg, types), rc, out, cmd, text, at = bad
        # the compiler must work, and the oracle agree with the standard library
        erc, eout, _ = compile_(ctx, PRELUDE.replace('#include <ttl/type_traits.hpp>', '#include <limits.h>\n#include <stddef.h>'), cfg, 'empty')
        if erc != 0:
            ctx.error('the compiler does not work:\n' + eout[-2000:])
        if 'ORACLE' in re.sub(r'\n\s*\d* *\|[^\n]*', '', out):
            ctx.error('the oracle disagrees with std:\n' + out[:3000])
        names = blamed(out, 'u%d' % b, at)
        if names:
            tid, trait = names[0]
            t = types[tid]
            n = [0]

            def fails(x):
                n[0] += 1
                text, at, _ = unit([x], cfg, b, trait)
                rc, out, _ = compile_(ctx, text, cfg, 's%d' % n[0])
                return rc != 0 and 'ORACLE' not in re.sub(r'\n\s*\d* *\|[^\n]*', '', out)
            if fails(t):
                again = True
                while again and n[0] < 400:
                    again = False
                    for x in sorted(smaller(t), key=size):
                        if size(x) < size(t) and fails(x):
                            t, again = x, True
                            break
                text, at, _ = unit([t], cfg, b, trait)
                rc, out, cmd = compile_(ctx, text, cfg, 'min')
                print('C25: %s of the type  %s  under %s %s' % (trait, show(t), cfg['cxx'], ' '.join([cfg['std']] + cfg['flags'])))
                print('wanted:', value(trait, t, cfg) if trait in VALUES else show(result(trait, t)) if trait in TYPES else 'same as itself and as no other')
        viol = 1
        with open(ctx.replay, 'w') as f:
            f.write('// property C25; must compile:  %s\n/*\n%s\n*/\n%s' % (' '.join(cmd[:-1] + ['FILE.cpp']), out[:4000].replace('*/', '* /'), text))
        print(out[:1500])
    rule = ('types generated as trees over fundamental types, classes, unions, enums, cv, pointers, references, arrays, functions and pointers to members (depth up to 8); %d traits of each asserted under '
            '13 combinations of compiler, standard and character configuration. Non-trivial: at least one type constructor over a base type; distinct as trees' % (len(VALUES) + len(TYPES) + 1))
    ctx.evidence({'evaluations': evaluations, 'distinct_nontrivial': len(distinct), 'rule': rule, 'samples': samples,
                  'assertions': checks, 'translation_units': len(jobs)}, viol, ctx.spec.get('assumptions', ()))
    print('C25: %d types in %d translation units, %d distinct non-trivial, %d assertions: %s' % (evaluations, len(jobs), len(distinct), checks, 'VIOLATED' if viol else 'held'))
    if viol:
        ctx.violation()
    return viol
