"""
Plant a bug: python3 tools/plant.py SPEC.py

SPEC.py defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO.
Writes seeded/ID/ after checking, in /repo (restored afterwards), that the
bug touches original lines only, compiles, passes the stable tests, and that
the demonstration fails with it and passes without it.
"""
import json
import os
import pathlib
import runpy
import subprocess
import sys

BASE = '56fccee'
spec = runpy.run_path(sys.argv[1])
ID = spec['ID']
REPO = pathlib.Path('/repo')


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


assert sh('git', '-C', '/repo', 'status', '--porcelain').stdout.strip() == '', 'dirty'
out = pathlib.Path(f'/verif/seeded/{ID}')
out.mkdir(parents=True, exist_ok=True)
(out / 'demo.py').write_text(
    'import os, sys\nsys.path.insert(0, os.getcwd())\n' + spec['DEMO'].lstrip('\n'))
(out / 'demo.sh').write_text(
    '#!/bin/bash\n'
    '# exits 0 when the property holds, nonzero otherwise (cwd: /repo)\n'
    'export PYTHONDONTWRITEBYTECODE=1\n'
    'PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\n'
    'exec "$PY" -W ignore "$(dirname "$0")/demo.py"\n')
os.chmod(out / 'demo.sh', 0o755)
(out / 'meta.json').write_text(json.dumps({
    'property': spec['PROP'], 'needs': spec['NEEDS'],
    'what_it_breaks': spec['BREAKS']}, indent=1) + '\n')
d = sh('bash', str(out / 'demo.sh'), cwd='/repo')
assert d.returncode == 0, 'demo fails on the unchanged tree\n' + d.stdout + d.stderr
try:
    for fn, old, new in spec['EDITS']:
        p = REPO / fn
        assert not fn.endswith('_spec.py')
        t = p.read_text()
        assert t.count(old) == 1, (fn, t.count(old), old)
        p.write_text(t.replace(old, new))
    diff = sh('git', '-C', '/repo', 'diff').stdout
    base_lines = {}
    for fn, *_ in spec['EDITS']:
        base_lines.setdefault(fn, set(sh('git', '-C', '/repo', 'show', f'{BASE}:{fn}').stdout.splitlines()))
    mine = [ln for ln in diff.splitlines() if ln.startswith('-') and not ln.startswith('---')
            and not any(ln[1:] in b for b in base_lines.values())]
    if mine:
        print('WARNING lines not in the original:', mine)
    (out / 'patch.diff').write_text(diff)
    d = sh('bash', str(out / 'demo.sh'), cwd='/repo')
    print('demo with bug: rc', d.returncode, (d.stdout + d.stderr).strip()[-300:])
    ok = d.returncode != 0
    if '-n' not in sys.argv:
        sh('bash', '/opt/vp/test.sh', '/tmp/plant.json')
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        passed = set(json.load(open('/tmp/plant.json'))['passed'])
        print('tests broken:', sorted(stable - passed)[:6], len(stable - passed))
        ok = ok and not (stable - passed)
    if ok and len(sys.argv) > 2 and '-c' in sys.argv:
        for c in sys.argv[sys.argv.index('-c') + 1].split(','):
            r = sh('bash', '/verif/run.sh', c, cwd='/verif')
            print('check', c, 'rc', r.returncode, [ln[:300] for ln in r.stdout.splitlines() if 'VIOLATION' in ln][:2])
finally:
    sh('git', '-C', '/repo', 'checkout', '--', '.')
print('OK' if ok else 'REJECTED', ID)
if not ok:
    for f in out.iterdir():
        f.unlink()
    out.rmdir()
