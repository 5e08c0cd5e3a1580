"""For every "fixed:" line: undo the commit in a scratch copy and confirm that the named check reports it.
   revertcheck.py OUT [commit...]"""
import os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
out = sys.argv[1]
os.makedirs(out, exist_ok=True)
L = [re.match(r'fixed: property=(C\d+) (\w+) (.*)', l) for l in open('/verif/KNOWN_FINDINGS')]
L = [m.groups() for m in L if m and (len(sys.argv) < 3 or m.group(2)[:7] in [c[:7] for c in sys.argv[2:]])]


def one(x):
    prop, commit, text = x
    d = '%s/%s-%s' % (out, prop, commit[:7])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(['git', 'clone', '-q', '/repo', d + '/repo'], check=True)
    q = subprocess.run(['git', '-C', d + '/repo', '-c', 'user.name=x', '-c', 'user.email=x@x', 'revert', '--no-commit', commit], capture_output=True, text=True)
    if q.returncode:
        res = 'CONFLICT'
    else:
        shutil.copytree('/verif', d + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'build', 'replays', 'evidence'))
        q = subprocess.run(['python3', d + '/verif/run_check.py', prop], env=dict(os.environ, VERIF_REPO=d + '/repo', VERIF_SEED='1', VERIF_TIER='quick'), capture_output=True, text=True)
        res = 'caught' if q.returncode == 1 and 'VIOLATION property=' + prop in q.stdout else 'MISSED rc=%d' % q.returncode
    shutil.rmtree(d)
    print(prop, commit[:7], res, text[:100], flush=True)


with ThreadPoolExecutor(2) as ex:
    list(ex.map(one, L))
