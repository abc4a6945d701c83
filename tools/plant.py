#!/usr/bin/env python3
"""Plant a bug: apply a replacement to /repo, build the patch, and verify it.

usage: plant.py SPEC.py          where SPEC.py defines ID, PROPERTY, FILE, OLD, NEW, NEEDS, BREAKS, DEMO
       plant.py --check ID [tier]  run the property's check against seeded/ID
Everything is undone in /repo afterwards.
"""
import json, os, re, subprocess, sys, runpy, tempfile

REPO, HERE = '/repo', os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)

def clean():
    assert sh('git -C %s status --short --untracked-files=no' % REPO).stdout == '', 'repo not clean'

def undo():
    sh('git -C %s checkout -- .' % REPO)

def demo(folder):
    env = {k: v for k, v in os.environ.items() if k != 'PYTHONPATH'}
    return sh(['bash', os.path.join(folder, 'demo.sh')], cwd=REPO, env=env)

def plant(spec):
    s = runpy.run_path(spec)
    folder = os.path.join(HERE, 'seeded', s['ID'])
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(REPO, s['FILE'])
    text = open(path).read()
    pairs = [(s['OLD'], s['NEW'])] if isinstance(s['OLD'], str) else list(zip(s['OLD'], s['NEW']))
    new = text
    for old, rep in pairs:
        assert new.count(old) == 1, ('occurrences', new.count(old), old)
        new = new.replace(old, rep)
    with open(os.path.join(folder, 'demo.py'), 'w') as f:
        f.write(s['DEMO'].lstrip('\n'))
    with open(os.path.join(folder, 'demo.sh'), 'w') as f:
        f.write('#!/bin/bash\n# exit 0 when the property holds on the demonstrated case\nset -e\n'
                'HERE="$(cd "$(dirname "$0")" && pwd)"\n'
                'PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$HERE/demo.py"\n')
    json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']},
              open(os.path.join(folder, 'meta.json'), 'w'), indent=1)
    clean()
    r = demo(folder)
    print(s['ID'], 'demo clean rc', r.returncode, r.stderr[-300:] if r.returncode else '')
    ok = r.returncode == 0
    try:
        open(path, 'w').write(new)
        d = sh('git -C %s diff' % REPO).stdout
        open(os.path.join(folder, 'patch.diff'), 'w').write(d)
        sh('bash /opt/vp/build.sh')
        out = tempfile.mktemp(suffix='.json')
        sh('bash /opt/vp/test.sh %s' % out)
        missing = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(json.load(open(out))['passed'])
        os.unlink(out)
        r = demo(folder)
        print(s['ID'], 'tests missing', missing, 'demo patched rc', r.returncode, r.stderr.strip()[-160:])
        ok = ok and not missing and r.returncode != 0
    finally:
        undo()
    clean()
    print(s['ID'], 'COUNTS' if ok else 'REJECTED')

def check(id, tier='quick'):
    folder = os.path.join(HERE, 'seeded', id)
    prop = json.load(open(os.path.join(folder, 'meta.json')))['property']
    clean()
    try:
        r = sh(['git', '-C', REPO, 'apply', os.path.join(folder, 'patch.diff')])
        assert r.returncode == 0, r.stderr
        r = sh([os.path.join(HERE, 'check'), prop, tier])
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print(id, prop, 'rc', r.returncode, v[:1], len(v), '' if r.returncode in (0, 1) else r.stderr[-500:], flush=True)
    finally:
        undo()
    clean()

if __name__ == '__main__':
    if sys.argv[1] == '--check':
        ids = sorted(os.listdir(os.path.join(HERE, 'seeded'))) if sys.argv[2] == 'all' else [sys.argv[2]]
        for id in ids:
            if os.path.isdir(os.path.join(HERE, 'seeded', id)):
                check(id, *sys.argv[3:])
    else:
        for spec in sys.argv[1:]:
            plant(spec)
