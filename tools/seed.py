#!/usr/bin/env python3
"""Makes and verifies a planted bug: seed.py SPEC.py
SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new), ...], DEMO (python source).
Verifies: patch applies, demo passes before and fails after, stable tests pass. Then runs the property's quick check."""
import json, os, shutil, subprocess, sys, runpy
spec = runpy.run_path(sys.argv[1])
ID = spec['ID']
W = f'/tmp/seed.{ID}.{os.getpid()}'
subprocess.run(['cp', '-a', '/repo', W], check=True)
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
try:
    sh('git checkout -- .', cwd=W)
    d = f'/verif/seeded/{ID}'
    os.makedirs(d, exist_ok=True)
    for f, old, new in spec['EDITS']:
        p = f'{W}/{f}'
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    open(f'{d}/patch.diff', 'w').write(sh('git diff', cwd=W).stdout)
    json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']},
              open(f'{d}/meta.json', 'w'), indent=1)
    open(f'{d}/demo.py', 'w').write(spec['DEMO'])
    for f in spec.get('FILES', ()):
        shutil.copy(f, d)
    open(f'{d}/demo.sh', 'w').write('''#!/bin/bash
# exit 0 if the property held
export PYTHONDONTWRITEBYTECODE=1 TZ=UTC DATASTORE_EMULATOR_HOST=localhost:8089 DATASTORE_DATASET=app
export ENCRYPTED_PROPERTY_KEY=AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA= GOOGLE_CLOUD_PROJECT=app PDS_HOST=pds.local PLC_HOST=plc.local
export PYTHONPATH="$PWD"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec timeout 200 "$PY" "$(dirname "$0")/demo.py"
''')
    os.chmod(f'{d}/demo.sh', 0o755)
    before = sh(f'bash {d}/demo.sh', cwd='/repo', env=ENV)
    after = sh(f'bash {d}/demo.sh', cwd=W, env=ENV)
    print('demo unchanged:', before.returncode, (before.stdout + before.stderr)[-600:] if before.returncode else '')
    print('demo patched:', after.returncode, (after.stdout + after.stderr).strip()[-200:])
    # orig lines only
    subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=W)
    a = sh(f'git apply {d}/patch.diff', cwd=W)
    assert a.returncode == 0, a.stderr
    blame = []
    for f, old, new in spec['EDITS']:
        first = [l for l in old.split('\n') if l.strip()]
        base = sh(f'git show $(git rev-list --max-parents=0 HEAD):{f}', cwd='/repo').stdout.split('\n')
        missing = [l for l in first if l not in base]
        if missing: blame.append((f, missing))
    if blame: print('NOTE lines not in the original repository:', blame)
    if '--notest' not in sys.argv:
        out = f'/tmp/seed.{ID}.json'
        t = sh(f'cd {W} && bash /verif/tools/stabletests.sh {W}')
        print('tests:', t.stdout.strip()[-300:])
    r = sh(f'./run {spec["PROPERTY"]} quick', cwd='/verif', env=dict(os.environ, VERIF_REPO=W))
    print('check:', r.returncode, r.stdout.strip()[-700:], r.stderr[-300:])
finally:
    shutil.rmtree(W)
