"""Plants one bug in a scratch copy of /repo, confirms it, and keeps it in seeded/<id>.

   from mkseed import seed
   seed(id, property, [(file, old, new)], demo source, needs, what it breaks, flags='')
"""
import json, os, shutil, subprocess, tempfile
VERIF = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
DEMO = '''#!/bin/bash
# exit 0 if the property holds in this case
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
g++ -std=gnu++17 -O1 -w -fno-exceptions -fno-rtti %s -I. "$(dirname "$0")/demo.cpp" -o "$d/demo" || exit 3
ASAN_OPTIONS=detect_leaks=0 timeout 120 "$d/demo"
'''


def sh(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def edit(tree, edits):
    for f, old, new in edits:
        p = os.path.join(tree, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            return 'the text occurs %d times in %s:\n%s' % (n, f, old)
        open(p, 'w').write(s.replace(old, new))


def seed(id, prop, edits, demo, needs, breaks, flags='', script=None):
    d = os.path.join(VERIF, 'seeded', id)
    tree = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    try:
        shutil.rmtree(tree)
        shutil.copytree('/repo', tree, symlinks=True)
        e = edit(tree, edits)
        if e:
            print(id, 'BAD EDIT:', e)
            return False
        patch = sh('git diff', tree)[1]
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(patch)
        if script:
            open(d + '/demo.sh', 'w').write(script)
        else:
            open(d + '/demo.sh', 'w').write(DEMO % flags)
        open(d + '/demo.cpp', 'w').write(demo.strip('\n') + '\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        ok = True
        rc, t = sh('git -C /repo apply --check %s/patch.diff' % d)
        if rc:
            ok = False
            print(id, 'PATCH:', t)
        # tests of the changed tree, in place of /repo's paths
        rc, t = sh('make -C %s/t clean >/dev/null 2>&1; ls' % tree)
        rc, t = runtests(tree)
        if rc:
            ok = False
            print(id, 'TESTS FAIL', t[-1500:])
        rc, t = sh('bash %s/demo.sh' % d, '/repo')
        if rc != 0:
            ok = False
            print(id, 'DEMO FAILS ON THE CLEAN TREE', rc, t[-1500:])
        rc, t = sh('bash %s/demo.sh' % d, tree)
        if rc == 0 or rc == 3:
            ok = False
            print(id, 'DEMO PASSES WITH THE PATCH' if rc == 0 else 'DEMO DOES NOT COMPILE ' + t[-1500:])
        print(id, prop, 'kept' if ok else 'DROPPED')
        if not ok:
            shutil.rmtree(d)
        return ok
    finally:
        shutil.rmtree(tree, ignore_errors=True)


def runtests(tree):
    s = open('/opt/vp/test.sh').read()
    b = open('/opt/vp/build.sh').read()
    open(tree + '.b.sh', 'w').write(b.replace('/repo', tree))
    open(tree + '.t.sh', 'w').write(s.replace('/repo', tree).replace('/opt/vp/build.sh', tree + '.b.sh'))
    try:
        rc, t = sh('bash %s.b.sh' % tree)
        if rc:
            return rc, t
        rc, t = sh('bash %s.t.sh %s.json' % (tree, tree))
        o = json.load(open(tree + '.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        miss = set(base.get('passed') or base.get('stable') or base.get('tests')) - set(o['passed'])
        return (1, 'missing: %s\n%s' % (sorted(miss), t)) if miss else (0, '')
    finally:
        for x in ('.b.sh', '.t.sh', '.json'):
            if os.path.exists(tree + x):
                os.unlink(tree + x)
