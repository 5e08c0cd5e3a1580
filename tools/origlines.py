"""Which planted bugs change lines that fix commits added?  (removed lines of each patch, by git blame)"""
import glob, os, re, subprocess, sys
R = '/repo'
fixes = set(subprocess.check_output(['git', '-C', R, 'log', '--format=%H', '--grep=^fix:'], text=True).split())
blame = {}
def who(f):
    if f not in blame:
        blame[f] = [l.split()[0].lstrip('^') for l in subprocess.check_output(['git', '-C', R, 'blame', '-l', '-s', f], text=True).splitlines()]
    return blame[f]
for p in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    f, n, bad, rem = None, 0, [], 0
    for l in open(p):
        if l.startswith('--- a/'): f = l[6:].strip()
        elif l.startswith('@@'): n = int(re.match(r'@@ -(\d+)', l).group(1)) - 1
        elif f and l.startswith('-') and not l.startswith('---'):
            rem += 1
            if any(who(f)[n] == h for h in fixes): bad.append('%s:%d' % (f, n + 1))
            n += 1
        elif f and l.startswith(' '): n += 1
    if bad or not rem: print(os.path.basename(os.path.dirname(p)), 'removed', rem, 'of fixes:', bad)
