#!/usr/bin/env python3
"""Nothing to build: checks that the tools the checks rely on are present and that the specification parses."""
import os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ok = True
for need in ('/opt/venv/bin/python', '/opt/veriftools/tla/tla2tools.jar'):
    if not os.path.exists(need):
        print('missing', need); ok = False
if not shutil.which('java'):
    print('missing java'); ok = False
for d in ('out', 'evidence', 'replays'):
    os.makedirs(os.path.join(ROOT, d), exist_ok=True)
jars = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
for m in sorted(f for f in os.listdir(os.path.join(ROOT, 'spec')) if f.endswith('.tla')) if ok else ():
    p = subprocess.run(['java', '-cp', jars, 'tla2sany.SANY', m], cwd=os.path.join(ROOT, 'spec'), capture_output=True, text=True)
    if p.returncode or 'rror' in p.stdout.replace('No error', ''):
        print(m, 'does not parse:\n', p.stdout[-800:]); ok = False
sys.exit(0 if ok else 1)
