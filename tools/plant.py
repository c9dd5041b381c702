#!/usr/bin/env python3
"""Builds seeded/<id>/ from tools/bugs.py and (with arguments) confirms them: plant.py [--make] [--confirm] [--check] [--all-checks] [ids...]
Works on /repo's working tree and always restores it."""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bugs
REPO = '/repo'

def sh(cmd, timeout=900, **kw):
    try:
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'

def clean():
    sh(f'git -C {REPO} checkout -- .')
    assert sh(f'git -C {REPO} status --short')[1].strip() == '', 'repo not clean'

def make(b):
    d = os.path.join(ROOT, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    clean()
    try:
        for f, old, new in b['edits']:
            p = os.path.join(REPO, f)
            t = open(p).read()
            assert t.count(old) == 1, f'{b["id"]}: {t.count(old)} matches of {old!r} in {f}'
            open(p, 'w').write(t.replace(old, new))
        rc, diff = sh(f'git -C {REPO} diff')
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    finally:
        clean()
    open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].strip() + '\n')
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n# exit 0: the behaviour is right; nonzero: it is not\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)

def confirm(b):
    d = os.path.join(ROOT, 'seeded', b['id'])
    clean()
    sh(f'find {REPO} -name __pycache__ -prune -exec rm -r {{}} +')
    rc0, o0 = sh(f'cd {REPO} && bash {d}/demo.sh', 300)
    try:
        rc, o = sh(f'git -C {REPO} apply {d}/patch.diff')
        assert rc == 0, o
        sh('bash /opt/vp/build.sh')
        rc1, o1 = sh(f'cd {REPO} && bash {d}/demo.sh', 300)
        os.makedirs('/tmp/x', exist_ok=True)
        sh('bash /opt/vp/test.sh /tmp/x/pl.json')
        base, got = json.load(open('/opt/vp/BASELINE.json')), json.load(open('/tmp/x/pl.json'))
        k = [x for x in ('passed', 'stable', 'tests', 'pass') if x in base][0]
        lost = set(base[k]) - set(got['passed'] if 'passed' in got else got[k])
    finally:
        clean()
    ok = rc0 == 0 and rc1 != 0 and not lost
    print(f'{b["id"]:28} {b["prop"]} demo {rc0}/{rc1} lost {len(lost)} {"CONFIRMED" if ok else "-- NOT --"} {sorted(lost)[:2] if lost else ""} {o0[-300:] if rc0 else ""}', flush=True)
    return ok

def check(b, props=None, args=''):
    d = os.path.join(ROOT, 'seeded', b['id'])
    clean()
    res = {}
    try:
        rc, o = sh(f'git -C {REPO} apply {d}/patch.diff')
        assert rc == 0, o
        for p in props or [b['prop']]:
            t = time.time()
            rc, o = sh(f'cd {ROOT} && python3 check.py {p} {args}')
            hit = rc == 1 and f'VIOLATION property={p} ' in o
            res[p] = 'CAUGHT' if hit else 'missed' if rc == 0 else f'rc {rc}'
            n = o.count('VIOLATION property=')
            print(f'{b["id"]:28} {p} {res[p]} ({n}) {time.time() - t:.0f} s' + ('' if hit or rc == 0 else ' ' + o[-600:]), flush=True)
    finally:
        clean()
    return res

if __name__ == '__main__':
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    sel = [b for b in bugs.BUGS if not ids or b['id'] in ids or b['prop'] in ids]
    for b in sel:
        if '--make' in sys.argv:
            make(b)
        if '--confirm' in sys.argv:
            confirm(b)
        if '--check' in sys.argv:
            check(b)
        if '--all-checks' in sys.argv:
            check(b, [f'C{i:02}' for i in range(1, 25)])
