#!/usr/bin/env python3
"""mkseed.py FILE.py : FILE defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ source of demo.cpp, or None with DEMOSH), optional EXTRA={name:path}.
Confirms in a scratch copy that it builds, tests pass, the demo separates; writes seeded/<ID>/."""
import sys, os, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {}; exec(open(sys.argv[1]).read(), g)
D = os.path.join(V, 'seeded', g['ID']); shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
def edit(root):
    for f, a, b in g['EDITS']:
        p = os.path.join(root, f); t = open(p, 'rb').read().decode('latin1')
        crlf = '\r\n' in t
        if crlf: a = a.replace('\r\n', '\n').replace('\n', '\r\n'); b = b.replace('\r\n', '\n').replace('\n', '\r\n')
        assert t.count(a) == 1, (f, t.count(a), a)
        open(p, 'wb').write(t.replace(a, b).encode('latin1'))
for f in ('port.py', 'prelude.h', 'fixes.json'):
    s = os.path.join(V, 'harness/port', f)
    if os.path.exists(s): shutil.copy(s, D)
shutil.copy(os.path.join(V, 'tools/kit/kbuild.py'), D); shutil.copy(os.path.join(V, 'harness/port/_extern/agner.org/AF_randomc_h/random.h'), os.path.join(D, 'agner_random.h'))
open(os.path.join(D, 'demo.sh'), 'w').write(g.get('DEMOSH') or open(os.path.join(V, 'tools/kit/demo.sh')).read()); os.chmod(os.path.join(D, 'demo.sh'), 0o755)
if g.get('DEMO'): open(os.path.join(D, 'demo.cpp'), 'w').write(g['DEMO'])
for n, s in g.get('EXTRA', {}).items(): shutil.copy(os.path.join(V, s), os.path.join(D, n))
assert subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout.strip() == '', 'repo dirty'
r0 = subprocess.run(['bash', os.path.join(D, 'demo.sh')], cwd='/repo').returncode
edit('/repo')
try:
    diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True).stdout
    open(os.path.join(D, 'patch.diff'), 'wb').write(diff)
    b = subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True).returncode
    subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/seed_out.json'], capture_output=True)
    res = json.load(open('/tmp/seed_out.json'))
    r1 = subprocess.run(['bash', os.path.join(D, 'demo.sh')], cwd='/repo').returncode
    if '--check' in sys.argv:
        c = subprocess.run([os.path.join(V, 'check'), g['PROP']], capture_output=True, text=True)
        print('CHECK %s rc=%d %s' % (g['PROP'], c.returncode, [l for l in c.stdout.split('\n') if l.startswith(('FOUND', 'VIOL', 'BROKEN', 'OK'))]))
        if c.returncode not in (0, 1): print(c.stdout[-2000:], c.stderr[-1500:])
finally:
    subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(os.path.join(D, 'meta.json'), 'w'), indent=1)
print(g['ID'], 'demo clean rc', r0, '| build rc', b, '| tests', len(res['passed']), 'passed', len(res['failed']), 'failed | demo patched rc', r1)
ok = r0 == 0 and b == 0 and r1 not in (0, 9) and not res['failed'] and len(res['passed']) >= 4
print('KEPT' if ok else 'REJECTED')
if not ok: shutil.rmtree(D)
