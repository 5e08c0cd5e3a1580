"""Mutation run over ttl/*.hpp:  mutate.py OUT SECONDS WORKERS [SEED [FILES...]]

Draws small changes of the headers, keeps those which build and pass the
repository's tests, and runs the checks of the file on them until one reports.
Everything happens in copies under OUT; survivors are listed in OUT/survivors.
"""
import glob, json, os, random, re, shutil, subprocess, sys, threading, time
out, secs, workers = sys.argv[1], float(sys.argv[2]), int(sys.argv[3])
seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
only = sys.argv[5:]
sys.path.insert(0, '/verif/tools')
from mkseed import runtests
SEQ = ['C16', 'C17', 'C18', 'C19', 'C20', 'C28', 'C29', 'C27', 'C31']
FIRST = {'algorithm': ['C21', 'C22', 'C23', 'C28', 'C30', 'C33', 'C26'], 'array': ['C15', 'C27', 'C20', 'C29', 'C31', 'C32', 'C26'], 'backward_list': ['C09'] + SEQ, 'bitset': ['C13', 'C14', 'C27', 'C26', 'C34'],
         'fixed_vector': ['C06'] + SEQ, 'forward_list': ['C08'] + SEQ, 'functional': ['C24'], 'lazy_queue': ['C10'] + SEQ, 'list': ['C07'] + SEQ, 'map': ['C01'] + SEQ,
         'numeric': ['C23', 'C24'], 'rbtree': ['C03', 'C04', 'C01', 'C02'] + SEQ, 'set': ['C02'] + SEQ, 'slist_node': ['C08', 'C09', 'C10'] + SEQ, 'sorted_vector_map': ['C11'] + SEQ,
         'type_traits': ['C25'], 'types': ['C25', 'C26'], 'utility': ['C24', 'C32'], 'vector': ['C05'] + SEQ, 'vector_map': ['C12'] + SEQ, 'ttl': ['C26']}
LAST = ['C36', 'C37', 'C32', 'C33', 'C26', 'C30', 'C34', 'C35']
SUBS = [(r'(?<![<>=!&|+\-*/:])<(?![<=])', ['<=']), (r'(?<![<>=!-])>(?![>=])', ['>=']), (r'==', ['!=']), (r'!=', ['==']), (r'<=', ['<']), (r'>=', ['>']), (r'&&', ['||']), (r'\|\|', ['&&']),
        (r'\+\+', ['', '--']), (r'--', ['', '++']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r'\b1\b', ['0', '2']), (r'\b0\b', ['1']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\bfirst\b', ['last', 'second']),
        (r'\blast\b', ['first']), (r'\bleft\b', ['right']), (r'\bright\b', ['left']), (r'\bnext\b', ['prev']), (r'\bprev\b', ['next']), (r'(?<![\w!])!(?=[\w(])', ['']), (r'\bif \(', ['if (!', 'if (false && ', 'if (true || ']), (r'\bwhile \(', ['if (']),
        (r'\bbegin\(\)', ['end()']), (r'\bend\(\)', ['begin()']), (r'\+= ', ['-= ', '= ']), (r'-= ', ['+= ']), (r'\* ', ['']), (r' % ', [' / ']), (r'\bfront\(\)', ['back()']), (r'\blast_\b', ['end_of_elements_', 'begin()']), (r'\bother\b', ['*this']),
        (r'\bconst ', ['']), (r' & ', [' | ']), (r' \| ', [' & ']), (r' \^ ', [' | ']), (r'~', ['']), (r'<<', ['>>']), (r'>>', ['<<']), (r'\bnlast\b', ['last']), (r'\bone\b', ['two']), (r'\btwo\b', ['one']), (r'\bfirst1\b', ['first2']), (r'\blast1\b', ['first1']), (r'\blast2\b', ['first2'])]


def mutants():
    for f in sorted(glob.glob('/repo/ttl/*.hpp')):
        base = os.path.basename(f)[:-4]
        if only and base not in only:
            continue
        lines = open(f).read().split('\n')
        inc, dead, nest = False, 0, []
        for n, l in enumerate(lines):
            s = l.strip()
            if re.match(r'# *if', s):                      # what is compiled out is left alone
                nest.append('TODO' in s)
            elif re.match(r'# *else', s) and nest:
                nest[-1] = not nest[-1] and base == 'list'
            elif re.match(r'# *endif', s) and nest:
                nest.pop()
            if any(nest) and base != 'type_traits':
                continue
            if inc:
                inc = '*/' not in l
                continue
            if s.startswith('/*'):
                inc = '*/' not in l
                continue
            if not s or s.startswith('//') or s.startswith('#') or s.startswith('template') or s.startswith('*'):
                continue
            code = l.split('//')[0]
            for pat, reps in SUBS:
                for m in re.finditer(pat, code):
                    for rep in reps:
                        new = code[:m.start()] + rep + code[m.end():]
                        if rep in ('if (true || ', 'if (false && '):
                            pass
                        yield base, n, l, new
            if s.endswith(';') and not re.match(r'(typedef|using|return|friend|public|\}|enum|extern|static_assert|break|continue|inline|bool|explicit|~)', s) and '(' in s or re.match(r'[\w>.\-\[\]]+ = .*;$', s) or re.match(r'\+\+\w+;|--\w+;', s):
                yield base, n, l, re.match(r'\s*', l).group(0) + ';'
            if n + 1 < len(lines) and s.endswith(';') and lines[n + 1].strip().endswith(';') and not re.match(r'(typedef|return|using)', s) and re.match(r'\s{6,}', l):
                yield base, n, l + '\n' + lines[n + 1], lines[n + 1] + '\n' + l


all_ = sorted(set(mutants()))
random.Random(seed).shuffle(all_)
print(len(all_), 'mutants')
os.makedirs(out, exist_ok=True)
lock, pos, t0 = threading.Lock(), [0], time.time()
seen = set(json.loads(x)['key'] for x in open(out + '/log')) if os.path.exists(out + '/log') else set()


def record(d):
    with lock:
        with open(out + '/log', 'a') as f:
            f.write(json.dumps(d) + '\n')
        if d['result'] == 'survived':
            with open(out + '/survivors', 'a') as f:
                f.write('%s%s:%d\n-%s\n+%s\n\n' % ('(same code) ' if d.get('same') else '', d['file'], d['line'] + 1, d['old'], d['new']))


TCE = {'algorithm': ['c21_algo_read', 'c22_algo_write', 'c23_algo_order'], 'array': ['c15_array'], 'backward_list': ['c09_backward_list'], 'bitset': ['c13_bitset', 'c14_bitset_conv'], 'fixed_vector': ['c06_fixed_vector'],
       'forward_list': ['c08_forward_list'], 'functional': ['c24_helpers'], 'lazy_queue': ['c10_lazy_queue'], 'list': ['c07_list'], 'map': ['c01_map'], 'numeric': ['c24_helpers', 'c23_algo_order'], 'rbtree': ['c03_rbtree', 'c02_set'], 'set': ['c02_set'],
       'slist_node': ['c08_forward_list'], 'sorted_vector_map': ['c11_sorted_vector_map'], 'utility': ['c24_helpers'], 'vector': ['c05_vector'], 'vector_map': ['c12_vector_map']}
base_asm = {}


def asm(tree, base):
    res = []
    for h in TCE.get(base, []):
        q = subprocess.run(['g++', '-std=gnu++17', '-O1', '-w', '-fno-exceptions', '-fno-rtti', '-S', '-o', '-', '-I' + tree, '-I/verif/harness', '/verif/harness/%s.cpp' % h], capture_output=True)
        if q.returncode:
            return None
        res.append(re.sub(rb'\.LC?\d+|%s' % tree.encode(), b'', q.stdout))
    return res


def work(w):
    tree, ver = '%s/w%d/repo' % (out, w), '%s/w%d/verif' % (out, w)
    shutil.rmtree('%s/w%d' % (out, w), ignore_errors=True)
    os.makedirs('%s/w%d' % (out, w))
    shutil.copytree('/repo', tree, symlinks=True)
    shutil.copytree('/verif', ver, ignore=shutil.ignore_patterns('.git', 'seeded', 'build', 'replays', 'evidence'))
    while time.time() - t0 < secs:
        with lock:
            if pos[0] >= len(all_):
                return
            base, n, old, new = all_[pos[0]]
            pos[0] += 1
        key = '%s:%d:%s' % (base, n, new)
        if key in seen:
            continue
        f = '%s/ttl/%s.hpp' % (tree, base)
        src = open('/repo/ttl/%s.hpp' % base).read()
        L = src.split('\n')
        k = old.count('\n') + 1
        assert '\n'.join(L[n:n + k]) == old
        L[n:n + k] = [new]
        d = dict(key=key, file=base, line=n, old=old, new=new)
        try:
            open(f, 'w').write('\n'.join(L))
            # a quick look first: does everything parse?
            inc = ''.join('#include <ttl/%s.hpp>\n' % os.path.basename(h)[:-4] for h in sorted(glob.glob(tree + '/ttl/*.hpp')))
            q = subprocess.run(['g++', '-fsyntax-only', '-w', '-fno-exceptions', '-fno-rtti', '-I' + tree, '-x', 'c++', '-'], input=inc, text=True, capture_output=True)
            if q.returncode:
                continue
            try:
                rc, t = runtests(tree)
            except Exception as e:
                rc = 1
            if rc:
                record(dict(d, result='tests'))
                continue
            if base not in base_asm:
                base_asm[base] = asm('/repo', base)
            same = base_asm[base] and asm(tree, base) == base_asm[base]
            hit = None
            order = FIRST.get(base, []) + [c for c in LAST if c not in FIRST.get(base, [])]
            if same:                     # no difference in the code: perhaps one of types
                order, d['same'] = LAST, 1
            for c in order:
                e = dict(os.environ, VERIF_REPO=tree, VERIF_TIER='quick', VERIF_SEED='1')
                try:
                    q = subprocess.run(['python3', ver + '/run_check.py', c], env=e, capture_output=True, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    continue
                if q.returncode == 1 and 'VIOLATION property=' in q.stdout:
                    hit = c
                    break
                if q.returncode:
                    d['odd'] = d.get('odd', '') + ' %s:%d' % (c, q.returncode)
            record(dict(d, result=hit or 'survived'))
        finally:
            open(f, 'w').write(src)


ts = [threading.Thread(target=work, args=(i,)) for i in range(workers)]
[t.start() for t in ts]
[t.join() for t in ts]
for i in range(workers):
    shutil.rmtree('%s/w%d' % (out, i), ignore_errors=True)
