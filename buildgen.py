"""C37: the same histories in other builds.

The harnesses of the other properties (their generators, models and shrinking)
are built with other compilers, optimisation levels, contents of uninitialized
variables and with traps for undefined behaviour, and run on generated cases:
every build must agree with the models.  What a build does differently, and
every undefined operation, is a failure, shrunk by the harness which found it.
"""
import json, os, re, time
from concurrent.futures import ThreadPoolExecutor
from run_check import sh, compiler_works

COMMON = ['-std=gnu++17', '-g1', '-fno-exceptions', '-fno-rtti', '-w', '-pthread']
GCC = ['g++'] + COMMON + ['-fno-lifetime-dse']      # the element types of the harnesses mark themselves dead
CLANG = ['clang++'] + COMMON
# the end of a tree or a list is a header seen as a node, perhaps of less alignment: never touched as one.  A
# reference to nothing which is only turned into an address again does no harm: the optimised builds tell
LAX = ['-fno-sanitize=alignment,object-size,vptr,null', '-fno-sanitize-recover=undefined']
BUILDS = [
    ('gcc-O3', GCC + ['-O3', '-ftrivial-auto-var-init=pattern']),
    ('clang-O2', CLANG + ['-O2', '-ftrivial-auto-var-init=pattern']),
    ('clang-ubsan', CLANG + ['-O1', '-fsanitize=undefined'] + LAX),
]
MORE = [
    ('gcc-ubsan', GCC + ['-O2', '-fsanitize=undefined', '-fsanitize=bounds-strict'] + LAX),
    ('gcc-O0', GCC + ['-O0', '-ftrivial-auto-var-init=pattern']),
    ('gcc-Os', GCC + ['-Os', '-funsigned-char']),
    ('gcc-O2-lto', GCC + ['-O2', '-flto', '-fipa-pta', '-ftrivial-auto-var-init=zero']),
    ('gcc-O3-native', GCC + ['-O3', '-march=native', '-funroll-loops', '-fgcse-las', '-fno-inline']),
    ('clang-O3', CLANG + ['-O3', '-funsigned-char']),
    ('clang-O0', CLANG + ['-O0', '-ftrivial-auto-var-init=pattern']),
]
# harness: cases of a build in the quick tier
HARNESSES = {
    'c01_map': 20000, 'c02_set': 20000, 'c03_rbtree': 10000, 'c04_balance': 10000, 'c05_vector': 100000, 'c06_fixed_vector': 100000,
    'c07_list': 60000, 'c08_forward_list': 80000, 'c09_backward_list': 80000, 'c10_lazy_queue': 80000, 'c11_sorted_vector_map': 30000,
    'c12_vector_map': 80000, 'c13_bitset': 30000, 'c14_bitset_conv': 200000, 'c15_array': 100000,
    'c20_swap': 30000, 'c21_algo_read': 200000, 'c22_algo_write': 200000, 'c23_algo_order': 60000, 'c24_helpers': 200000,
}
WHOLE = {'c16_lifetime': 40000, 'c18_stability': 40000, 'c19_copies': 40000, 'c27_equality': 60000, 'c28_alias': 40000, 'c29_iterators': 80000, 'c31_alignment': 30000}


def run(ctx):
    thorough = ctx.tier == 'thorough'
    builds = BUILDS + (MORE if thorough else [])
    names = dict(HARNESSES, **(WHOLE if thorough else {}))
    known = ['-D%s=1' % ('KNOWN_' + k.replace('-', '_')) for k in ctx.known_ids]
    jobs = [(h, b, cmd) for h in sorted(names) for b, cmd in builds if not (h == 'c29_iterators' and 'clang' in b)]
    bad = []

    def one(j):
        h, b, cmd = j
        if len(bad) and not thorough or len(bad) > 3:
            return j, 'skip', '', None
        d = os.path.join(ctx.tmp, h + '.' + b)
        os.makedirs(d)
        exe = d + '/exe'
        src = os.path.join(ctx.here, 'harness', h + '.cpp')
        rc, text = sh(cmd + known + ['-I' + ctx.repo, '-I' + os.path.join(ctx.here, 'harness'), src, '-o', exe], 600)
        if rc:
            bad.append(j)
            return j, 'compile', text, None
        cases = names[h] * (20 if thorough else 1)
        run = [exe, '--seed', str(ctx.seed * 1000 + 37), '--cases', str(cases), '--jobs', '1', '--tmp', d, '--out', d + '/stats', '--replay-out', d + '/replay']
        rc, text = sh(run, 840 if not thorough else 3000)
        os.unlink(exe)
        st = None
        if os.path.exists(d + '/stats'):
            st = json.load(open(d + '/stats'))
        if rc:
            bad.append(j)
        return j, 'ok' if rc == 0 else 'fails' if rc == 1 else 'error', text, st

    evals = nontrivial = ops = done = 0
    samples, classes, first, error = [], {}, None, None
    with ThreadPoolExecutor(ctx.jobs) as ex:
        for (h, b, cmd), what, text, st in ex.map(one, sorted(jobs, key=lambda j: -names[j[0]])):
            if what == 'skip':
                continue
            done += 1
            classes[b] = classes.get(b, 0) + 1
            if st:
                evals += st['evaluations']
                nontrivial += st['distinct_nontrivial']
                ops += st['operations']
                if len(samples) < 8 and st['samples']:
                    samples.append('%s in %s: %s' % (h[4:], b, str(st['samples'][-1])[:1200]))
            if what == 'error' and not error:
                error = (h, b, text)
            elif what in ('fails', 'compile') and (first is None or (first[3] == 'compile' and what == 'fails')):
                first = (h, b, cmd, what, text)
    if error and not first:
        ctx.error('%s in %s ended unexpectedly\n%s' % (error[0], error[1], error[2][-3000:]))
    if first and first[3] == 'compile' and not compiler_works(ctx, [a for a in first[2]]):
        ctx.error('the compiler does not work\n' + first[4][-3000:])
    viol = 0
    if first:
        h, b, cmd, what, text = first
        viol = 1
        d = os.path.join(ctx.tmp, h + '.' + b)
        body = open(d + '/replay').read() if os.path.exists(d + '/replay') else ''
        print('C37: %s, built as %s (%s): %s' % (h[4:], b, ' '.join(cmd), 'does not compile' if what == 'compile' else 'disagrees with the model, or has undefined behaviour'))
        print(text.rstrip()[-3000:] if what != 'compile' else text[:3000])
        with open(ctx.replay, 'w') as f:
            f.write('property C37, found in another build\nbuild: %s %s -I. harness/%s.cpp; run it with --replay on this file\n%s' % (' '.join(cmd), ' '.join(known), h, body or text[:20000]))
    rule = ('cases of the generators of %d other checks (histories of every container against its model, bitsets, arrays, algorithms, helpers) in %d builds each: %s; '
            'non-trivial: as these checks count it, summed over the builds' % (len(names), len(builds), ', '.join(b for b, c in builds)))
    ctx.evidence({'evaluations': evals, 'distinct_nontrivial': max(nontrivial, 1), 'rule': rule, 'samples': samples or ['%s in %s' % (first[0], first[1]) if first else 'none'],
                  'operations': ops, 'builds_run': done, 'classes': classes}, viol)
    print('C37: %d builds, %d cases, %d non-trivial, %d operations: %s' % (done, evals, nontrivial, ops, 'VIOLATED' if viol else 'held'))
    if viol:
        ctx.violation()
    return viol
