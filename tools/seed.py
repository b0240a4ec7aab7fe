#!/usr/bin/env python3
"""seed.py: planted bugs. Each spec (tools/seeds/*.py) is SEEDS = {id: dict(property, edits=[(file, old, new)], needs, breaks, dbc / demo)}.
seed.py make ID...  writes seeded/ID and confirms it (builds, tests pass, demo distinguishes); seed.py check ID... runs the property's check with it applied."""
import sys, os, subprocess, json, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = '/repo'
SEEDS = {}
for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
    ns = {}; exec(open(f).read(), ns); SEEDS.update(ns['SEEDS'])
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
HEAD = '''#!/bin/bash
# fails when the planted change is present; everything is written below a scratch directory
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
BIN="$PWD/_build/coderdbc"; H="$(cd "$(dirname "$0")" && pwd)"; cd "$D" || exit 9
'''
def demo(s):
    if 'demo' in s: return HEAD + s['demo']
    t = HEAD + 'cat > in.dbc <<\'E\'\n' + s['dbc'] + 'E\n"$BIN" -dbc in.dbc -out out -drvname drv -rw %s > log 2>&1 || exit 9\n' % s.get('opts', '')
    if 'sh' in s: return t + s['sh']
    t += 'cat > t.c <<\'E\'\n' + s['c'] + 'E\n'
    if s.get('conf'): t += 'cat > out/conf/dbccodeconf.h <<\'E\'\n' + s['conf'] + 'E\n'
    t += 'gcc -w -Iout/lib -Iout/conf -Iout/inc -Iout/usr -Iout/butl %s -o t t.c || exit 3\n./t\n' % s.get('cflags', '')
    return t
def base_clean(): assert sh('git -C %s status --porcelain -uno' % R).stdout == '', 'repo not clean'
def undo(): sh('git -C %s checkout -- .' % R)
def build_test():
    r = sh('bash /opt/vp/test.sh /tmp/seed-out.json', timeout=600)
    try: o = json.load(open('/tmp/seed-out.json'))
    except Exception: return False, r.stdout[-1500:]
    return len(o['passed']) == 5 and not o['failed'], r.stdout[-1500:]
def make(i):
    s = SEEDS[i]; d = V + '/seeded/' + i; os.makedirs(d, exist_ok=True); base_clean()
    open(d + '/demo.sh', 'w').write(demo(s)); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    ok, log = build_test(); r0 = sh(['bash', d + '/demo.sh'], cwd=R)
    try:
        for f, a, b in s['edits']:
            p = R + '/' + f; t = open(p).read(); assert t.count(a) >= 1, (i, f, a); assert t.count(a) == 1 or s.get('first'), (i, 'ambiguous', a)
            open(p, 'w').write(t.replace(a, b, 1))
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % R).stdout)
        # only original lines changed?
        ok2, log2 = build_test(); r1 = sh(['bash', d + '/demo.sh'], cwd=R)
    finally:
        undo()
    print(i, 'OK' if ok and ok2 and r0.returncode == 0 and r1.returncode else 'BAD', 'tests', ok, ok2, 'demo', r0.returncode, r1.returncode)
    if not (ok and ok2): print(log2)
    if r0.returncode: print(r0.stdout[-1500:])
def check(i):
    base_clean(); pid = json.load(open(V + '/seeded/%s/meta.json' % i))['property']
    try:
        r = sh('git -C %s apply %s/seeded/%s/patch.diff' % (R, V, i)); assert r.returncode == 0, r.stdout
        r = sh(['python3', V + '/run.py', pid], cwd=V)
    finally: undo()
    v = [l for l in r.stdout.splitlines() if l.startswith(pid + ':')]
    print(i, pid, 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=%s' % pid in r.stdout else 'MISSED rc=%d' % r.returncode, '|', '; '.join(v)[:300])
    if r.returncode != 1: print(r.stdout[-1500:])
if __name__ == '__main__':
    for i in sys.argv[2:]:
      try: {'make': make, 'check': check, 'both': lambda i: (make(i), check(i))}[sys.argv[1]](i)
      except AssertionError as e: print(i, 'ASSERT', e); undo()
    sh('bash /opt/vp/build.sh')
