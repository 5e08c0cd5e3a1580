#!/usr/bin/env python3
"""Runs the check of one property:  run_check.py C01

Compiles the property's harness against the current tree of /repo, runs its
generated cases, and writes evidence/<id>.json.  Exit 0: held; 1: VIOLATION
printed; 2: the check itself could not run.
Tier and seed come from VERIF_TIER (quick) and VERIF_SEED (1).
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
from checks import CHECKS

JOBS = 8
CXX = ['g++', '-std=gnu++17', '-g1', '-fno-exceptions', '-fno-rtti', '-fno-lifetime-dse',
       '-Wno-inaccessible-base', '-pthread']
SAN = ['-fsanitize=address', '-fno-omit-frame-pointer']
FUZZ = ['clang++', '-std=gnu++17', '-g1', '-O1', '-fno-exceptions', '-fno-rtti', '-DPBT_LIBFUZZER',
        '-fsanitize=fuzzer,address', '-w']


def sh(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf-8', 'replace') + '\n(timeout)'


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.spec = CHECKS[pid]
        self.tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.repo = REPO
        self.here = HERE
        self.jobs = JOBS
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='ttlv.%s.' % pid)
        for d in ('build', 'evidence', 'replays'):
            os.makedirs(os.path.join(HERE, d), exist_ok=True)
        self.replay = os.path.join(HERE, 'replays', '%s-%s-%d.txt' % (pid, self.tier, self.seed))
        if os.path.exists(self.replay):
            os.unlink(self.replay)
        self.known_ids = []   # all accepted findings: harnesses share their histories
        self.known = []       # accepted findings of this property
        self.findings = []    # those of them seen in this run
        try:
            for line in open(os.path.join(HERE, 'KNOWN_FINDINGS')):
                m = re.match(r'known: property=(\S+) id=(\S+) (.*)', line)
                if m:
                    self.known_ids.append(m.group(2))
                    if m.group(1) == pid:
                        self.known.append((m.group(2), m.group(3).strip()))
        except OSError:
            pass

    def headers_digest(self):
        h = hashlib.sha256()
        d = os.path.join(self.repo, 'ttl')
        for root, dirs, files in os.walk(d):
            dirs.sort()
            for f in sorted(files):
                h.update(f.encode())
                h.update(open(os.path.join(root, f), 'rb').read())
        return h

    def evidence(self, coverage, violations, assumptions=()):
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration',
              'coverage': coverage, 'assumptions': list(assumptions),
              'wall_s': round(time.time() - self.t0, 2), 'violations': violations}
        path = os.path.join(HERE, 'evidence', self.pid + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(path + '.tmp', path)

    def violation(self, replay=None):
        print('VIOLATION property=%s replay=%s' % (self.pid, replay or self.replay))
        sys.stdout.flush()

    def error(self, text):
        print('ERROR in the check of %s: %s' % (self.pid, text))
        sys.stdout.flush()
        raise SystemExit(2)


def compile_harness(ctx, base, name, flags, suffix=''):
    """Returns the path of the binary, or None and the compiler's output."""
    src = os.path.join(HERE, 'harness', name + '.cpp')
    h = ctx.headers_digest()
    for f in sorted(os.listdir(os.path.join(HERE, 'harness'))):
        if f.endswith('.hpp') or f == name + '.cpp':
            h.update(open(os.path.join(HERE, 'harness', f), 'rb').read())
    cmd = base + flags + ['-D%s=1' % ('KNOWN_' + k.replace('-', '_')) for k in ctx.known_ids]
    cmd += ['-I' + ctx.repo, '-I' + os.path.join(HERE, 'harness')]
    h.update(' '.join(cmd).encode())
    out = os.path.join(HERE, 'build', '%s%s.%s' % (name, suffix, h.hexdigest()[:16]))
    if os.path.exists(out):
        return out, ''
    # older builds of the same harness
    for f in os.listdir(os.path.join(HERE, 'build')):
        if re.fullmatch(re.escape(name + suffix) + r'\.[0-9a-f]{16}', f):
            os.unlink(os.path.join(HERE, 'build', f))
    tmp = os.path.join(ctx.tmp, 'out' + suffix)
    parts = ctx.spec.get('parts', 0)
    if parts:
        with ThreadPoolExecutor(parts) as ex:
            res = list(ex.map(lambda n: sh(cmd + ['-c', '-DPART=%d' % n, src, '-o', '%s.%d.o' % (tmp, n)], 600), range(parts)))
        for rc, text in res:
            if rc != 0:
                return None, text
        rc, text = sh(cmd + ['%s.%d.o' % (tmp, n) for n in range(parts)] + ['-o', tmp], 600)
    else:
        rc, text = sh(cmd + [src, '-o', tmp], 600)
    if rc != 0:
        return None, text
    shutil.move(tmp, out)
    return out, ''


def compiler_works(ctx, base):
    p = os.path.join(ctx.tmp, 'stub.cpp')
    open(p, 'w').write('#include <stdio.h>\n#include <vector>\nint main() { puts("ok"); return 0; }\n')
    flags = [f for f in base if not f.startswith('-fsanitize=fuzzer') and f != '-DPBT_LIBFUZZER']
    rc, text = sh(flags + [p, '-o', p + '.out'], 120)
    return rc == 0


def sanitizer_runs(ctx, base):
    p = os.path.join(ctx.tmp, 'san.cpp')
    open(p, 'w').write('#include <thread>\nint x;\nint main() { std::thread t([] { x = 1; }); t.join(); return x - 1; }\n')
    if sh(base + [p, '-o', p + '.out'], 120)[0] != 0:
        return False
    return all(sh([p + '.out'], 60)[0] == 0 for _ in range(10))


def fuzz(ctx, name, coverage):
    """Coverage-guided search over the same property (thorough tier)."""
    flags = list(ctx.spec.get('flags', []))
    binary, text = compile_harness(ctx, FUZZ, name, flags, '.fuzz')
    if not binary:
        ctx.error('libFuzzer build failed\n' + text[-3000:])
    secs = int(ctx.spec.get('fuzz_seconds', 120))
    procs = []
    for j in range(JOBS):
        d = os.path.join(ctx.tmp, 'fuzz%d' % j)
        os.makedirs(d + '/corpus')
        log = open(d + '/log', 'wb')
        procs.append((d, log, subprocess.Popen(
            [binary, '-max_total_time=%d' % secs, '-seed=%d' % (ctx.seed * 64 + j + 1), '-max_len=2048', '-len_control=20',
             '-timeout=25', '-rss_limit_mb=3000', '-artifact_prefix=%s/crash-' % d, '-detect_leaks=0', d + '/corpus'],
            stdout=log, stderr=subprocess.STDOUT, cwd=d)))
    cases = nontrivial = corpus = 0
    crash = None
    for d, log, p in procs:
        try:
            p.wait(timeout=secs + 200)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        log.close()
        text = open(d + '/log', 'rb').read().decode('utf-8', 'replace')
        m = re.search(r'PBT-FUZZ cases=(\d+) nontrivial=(\d+)', text)
        if m:
            cases += int(m.group(1))
            nontrivial += int(m.group(2))
        corpus += len(os.listdir(d + '/corpus'))
        for f in sorted(os.listdir(d)):
            if f.startswith('crash-') and crash is None:
                crash = os.path.join(d, f)
    coverage['fuzz_executions'] = cases
    coverage['fuzz_nontrivial'] = nontrivial
    coverage['fuzz_corpus_inputs'] = corpus
    coverage['fuzz_seconds_per_job'] = secs
    return crash


def run_cpp(ctx):
    name = ctx.spec['harness']
    base = CXX + ['-O1'] + SAN
    if 'san' in ctx.spec:
        base = CXX + ['-O1', '-fno-omit-frame-pointer'] + ctx.spec['san']
        if not sanitizer_runs(ctx, base):     # of its parts, only those without the sanitizer are left
            print('%s does not run here: built without it' % ' '.join(ctx.spec['san']))
            base = CXX + ['-O1', '-fno-omit-frame-pointer']
    flags = list(ctx.spec.get('flags', []))
    binary, text = compile_harness(ctx, base, name, flags)
    if not binary:
        if not compiler_works(ctx, base):
            ctx.error('the compiler does not work\n' + text[-3000:])
        # code which uses the documented interface does not compile any more
        with open(ctx.replay, 'w') as f:
            f.write('property: %s\nThe generated cases of %s.cpp do not compile against %s:\n%s\n' % (ctx.pid, name, ctx.repo, text[:20000]))
        print(text[:3000])
        ctx.evidence({'evaluations': 1, 'distinct_nontrivial': 1, 'rule': 'compilation of the harness', 'samples': [text[:2000]]}, 1)
        ctx.violation()
        return 1
    stats = os.path.join(ctx.tmp, 'stats.json')
    cmd = [binary, '--out', stats, '--replay-out', ctx.replay, '--tmp', ctx.tmp, '--seed', str(ctx.seed), '--jobs', str(JOBS)]
    if ctx.tier == 'thorough':
        cmd.append('--thorough')
    if ctx.known:
        rc, text = sh([binary, '--probe'], 60)
        for k, what in ctx.known:
            if re.search(r'^probe %s present' % re.escape(k), text, re.M):
                ctx.findings.append((k, what))
    limit = 840 if ctx.tier == 'quick' else 6000
    rc, text = sh(cmd, limit)
    if rc not in (0, 1) or not os.path.exists(stats):
        print(text[-4000:])
        ctx.error('the harness ended with %d' % rc)
    st = json.load(open(stats))
    coverage = {'evaluations': st['evaluations'], 'distinct_nontrivial': st['distinct_nontrivial'], 'rule': st['rule'],
                'samples': st['samples'], 'nontrivial': st['nontrivial'], 'operations': st['operations'],
                'classes': st['classes'], 'harness_seconds': st['seconds'], 'verdict': st['verdict']}
    print(text.rstrip()[-4000:])
    if rc == 0 and ctx.tier == 'thorough' and ctx.spec.get('fuzz', True):
        crash = fuzz(ctx, name, coverage)
        if crash:
            rc, text = sh([binary, '--bytes', crash, '--out', stats, '--replay-out', ctx.replay, '--tmp', ctx.tmp], 600)
            print(text.rstrip()[-4000:])
            if rc == 0:
                print('the input found by libFuzzer passes in the g++ build: not reported')
                coverage['fuzz_not_confirmed'] = 1
            elif rc != 1:
                ctx.error('the harness ended with %d on the input found by libFuzzer' % rc)
    for k, what in ctx.findings:
        print('KNOWN-FINDING: property=%s %s' % (ctx.pid, what))
    coverage['known_findings_seen'] = len(ctx.findings)
    ctx.evidence(coverage, 1 if rc else 0, ctx.spec.get('assumptions', ()))
    if rc:
        ctx.violation()
        return 1
    return 0


def main():
    if len(sys.argv) != 2 or sys.argv[1] not in CHECKS:
        print(__doc__)
        return 2
    ctx = Ctx(sys.argv[1])
    try:
        if 'module' in ctx.spec:
            mod = __import__(ctx.spec['module'])
            return mod.run(ctx)
        return run_cpp(ctx)
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
