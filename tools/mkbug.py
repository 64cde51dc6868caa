#!/usr/bin/env python3
"""mkbug.py SPEC.py : turn a bug specification into seeded/<id> after confirming it in /repo (applied and undone).
A spec sets: id, prop, pkg, edits=[(file, old, new)], demo (Go test text), needs, breaks."""
import sys, os, subprocess, json, shutil
spec = {}
exec(open(sys.argv[1]).read(), spec)
R = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
assert sh('git -C /repo status --porcelain').stdout == '', 'repo not clean'
d = '/verif/seeded/' + spec['id']
os.makedirs(d, exist_ok=True)
open(d + '/demo_test.go', 'w').write(spec['demo'])
open(d + '/pkg', 'w').write(spec['pkg'])
shutil.copy('/verif/tools/demo.sh.txt', d + '/demo.sh'); os.chmod(d + '/demo.sh', 0o755)
json.dump({'property': spec['prop'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(d + '/meta.json', 'w'), indent=1)
ok = True
try:
    p = sh(d + '/demo.sh', cwd=R)
    if p.returncode != 0: print('demo FAILS on the clean tree:', p.stdout[-1500:], p.stderr[-1500:]); ok = False
    for f, old, new in spec['edits']:
        s = open(R + '/' + f).read()
        if s.count(old) != 1: print(f, 'edit matches', s.count(old), 'times:', old[:80]); ok = False; continue
        open(R + '/' + f, 'w').write(s.replace(old, new))
    if ok:
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        b = sh('bash /opt/vp/build.sh')
        if b.returncode != 0: print('does not build', b.stderr); ok = False
    if ok:
        t = sh('bash /opt/vp/test.sh /tmp/bugtest.json')
        base = json.load(open('/opt/vp/BASELINE.json'))
        res = json.load(open('/tmp/bugtest.json'))
        names = base.get('stable') or base.get('passed') or base.get('tests')
        passed = set(res.get('passed', []))
        miss = [n for n in names if n not in passed]
        if miss: print('stable tests fail:', miss); ok = False
        p = sh(d + '/demo.sh', cwd=R)
        if p.returncode == 0: print('demo passes with the bug'); ok = False
        else: print('demo with the bug:', '\n'.join(l for l in p.stdout.splitlines() if 'demo_test' in l or 'panic' in l)[:600])
        if len(sys.argv) > 2 and ok:
            c = sh('/verif/check.sh %s quick' % spec['prop'])
            print('CHECK exit', c.returncode, [l for l in c.stdout.splitlines() if 'VIOLATION' in l][:3])
finally:
    sh('git -C /repo checkout -- .')
print(spec['id'], 'OK' if ok else 'REJECTED')
if not ok: shutil.rmtree(d)
