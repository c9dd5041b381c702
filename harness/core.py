"""Driver plumbing: record histories from the real code, have TLC judge them against the specification."""
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
PY = '/opt/venv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
PRIMES = [46337, 46327, 46309, 46307, 46301, 46279, 46273, 46271, 46261, 46237, 46229, 46219]


class Machinery(Exception):
    """the machinery itself failed: no verdict"""


def work_dir(name):
    d = os.path.join(ROOT, 'out', f'{name}-{os.getpid()}')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def env(**kw):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent', PYTHONHASHSEED='0', LC_ALL='C.UTF-8')
    e.update({k: str(v) for k, v in kw.items()})
    return e


def write_ndjson(path, rows):
    with open(path, 'w') as f:
        for r in rows:
            f.write(json.dumps(r) + '\n')


def read_ndjson(path):
    return [json.loads(x) for x in open(path) if x.strip()]


def record(hists, d, M, runner='realapi.py', jobs=8, timeout=800):
    """run the histories against the real code; returns (recorded histories, broken ones)"""
    src, dst = os.path.join(d, 'in.ndjson'), os.path.join(d, 'rec.ndjson')
    write_ndjson(src, hists)
    p = subprocess.run([PY, os.path.join(ROOT, 'harness', runner), src, dst, str(M), str(jobs)], env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    if p.returncode != 0 or not os.path.exists(dst):
        if 'REPO-IMPORT-FAILED' in p.stdout:
            return [], [{'id': 'import', 'dead': 1, 'why': p.stdout[-2000:]}]
        raise Machinery(f'{runner} failed:\n{p.stdout[-4000:]}')
    rows = read_ndjson(dst)
    if len(rows) != len(hists):
        raise Machinery(f'{runner}: {len(rows)} of {len(hists)} histories recorded')
    good = [r for r in rows if 'ev' in r]
    bad = [r for r in rows if 'ev' not in r]
    for r in bad:       # what the code answered could not even be written down: never so on code that answers as specified
        if 'crash' in r and 'dead' not in r:
            r['why'] = 'an answer could not be recorded: ' + r['crash']
    return good, bad


def tlc(module, cfg, workdir, environ=None, workers=8, timeout=850, extra=(), heap='6g', constants=None, invariants=None):
    """run TLC; returns (returncode, output)"""
    meta = os.path.join(workdir, 'states')
    cfgpath = os.path.join(SPEC, cfg)
    if constants or invariants:
        text = open(cfgpath).read()
        if invariants:
            text = re.sub(r'(?m)^INVARIANTS?.*$', 'INVARIANTS ' + invariants, text)
        for k, v in (constants or {}).items():
            text, c = re.subn(rf'(?m)^(\s*(?:CONSTANTS?\s+)?{k}\s*=\s*).*$', rf'\g<1>{v}', text)
            if not c:
                raise Machinery(f'constant {k} not in {cfg}')
        cfgpath = os.path.join(workdir, os.path.basename(cfg))
        open(cfgpath, 'w').write(text)
    cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', '-cp', JARS, f'-DTLA-Library={SPEC}', 'tlc2.TLC', '-workers', str(workers),
           '-metadir', meta, '-noGenerateSpecTE', '-config', cfgpath, *extra, os.path.join(SPEC, module)]
    try:
        p = subprocess.run(cmd, env=env(**(environ or {})), cwd=workdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery(f'TLC timed out on {module}')
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def stats(out):
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def judge(hists, d, M, module='SessionTrace.tla', cfg='SessionTrace.cfg', name='trace', environ=None, timeout=850):
    """TLC's verdict on recorded histories: (list of BAD records, states, distinct)"""
    if not hists:
        return [], 0, 0
    path = os.path.join(d, f'{name}.ndjson')
    odd, t0, hists = [], time.time(), list(hists)
    while hists:
        write_ndjson(path, hists)
        rc, out = tlc(module, cfg, d, environ={'TRACE': path, **(environ or {})}, constants={'M': M}, timeout=max(30, timeout - (time.time() - t0)))
        gen, distinct = stats(out)
        want = sum(len(h['ev']) + 1 for h in hists)
        if rc == 0 and distinct == want:
            break
        open(os.path.join(ROOT, 'out', 'tlc-failure.txt'), 'w').write(out)
        err = out[out.find('Error'):][:3000] if 'Error' in out else out[-3000:]
        at = re.findall(r'(?m)^/\\ h = (\d+)$', out[out.find('Error'):])
        ls = re.findall(r'(?m)^/\\ l = (\d+)$', out[out.find('Error'):])
        if not at or rc == 0 or 'OutOfMemory' in out or not 1 <= int(at[-1]) <= len(hists):
            raise Machinery(f'TLC did not judge every event ({distinct} of {want} states, rc {rc}):\n{err}')
        # an observation the specification cannot interpret at all is no step of it
        h = hists.pop(int(at[-1]) - 1)
        odd.append({'id': h['id'], 'l': min(len(h['ev']), int(ls[-1]) + 1 if ls else 1), 'clause': 'the specification has no such answer', 'exp': err[:600]})
        if len(odd) == 3 or not hists:
            return odd, 0, 0
    bad = []
    for line in out.splitlines():
        m = re.match(r'^"?BAD (.*?)"?$', line)
        if m:
            bad.append(json.loads(m.group(1).replace('\\"', '"')))
    judge.unspecified += len(re.findall(r'(?m)^"?UNK"?$', out))
    return odd + bad, gen, distinct


judge.unspecified = 0


def scripts(module, cfg, workdir, constants=None, invariants=None, timeout=300):
    """the scripts a specification enumerates (lines SCRIPT <json>), in a fixed order"""
    rc, out = tlc(module, cfg, workdir, constants=constants, invariants=invariants, timeout=timeout)
    got = [json.loads(line[8:-1].replace('\\"', '"').replace('\\\\', '\\')) for line in out.splitlines() if line.startswith('"SCRIPT ')]
    if rc != 0 or not got:
        raise Machinery(f'{module}: rc {rc}\n' + '\n'.join(x for x in out.splitlines() if not x.startswith('"SCRIPT'))[-2500:])
    return sorted(got, key=json.dumps), stats(out)[1]
