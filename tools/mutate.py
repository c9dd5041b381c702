"""Mutation runs: how much of what the code does do the checks hold fast?

usage: mutate.py --out DIR [--files F,...] [--workers N] [--max N] [--seed N] [--scale X]

Every mutant is one small edit of a source file of /repo, made in a copy of /repo (never in /repo itself).  Those that still
pass the repository's tests are given to the checks that know the file, until one reports a violation.  Writes
DIR/results.ndjson; a mutant nothing catches is either equivalent or a hole to look at.  A tool for development only.
"""
import argparse
import ast
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    'randvar.py': ['C02', 'C01', 'C06', 'C15', 'C05', 'C08', 'C09', 'C24', 'C04', 'C13', 'C23', 'C16', 'C03', 'C14'],
    'seq.py': ['C03', 'C02', 'C09', 'C06', 'C18', 'C13'],
    'roller.py': ['C04', 'C14', 'C24', 'C17', 'C12', 'C18', 'C13', 'C09'],
    'funclib.py': ['C11', 'C14', 'C12'],
    'decorators.py': ['C07', 'C08', 'C10', 'C11', 'C09'],
    'blackrv.py': ['C09', 'C24', 'C16', 'C02'],
    'factory.py': ['C05', 'C03', 'C22', 'C09', 'C01'],
    'string_rvs.py': ['C22', 'C16', 'C15'],
    'utils.py': ['C18', 'C08', 'C03', 'C11'],
    'output.py': ['C16', 'C12', 'C09'],
    'settings.py': ['C12', 'C10', 'C14'],
    'altcast.py': ['C04', 'C24'],
    'parser/python_resolver.py': ['C18', 'C19', 'C21', 'C20'],
    'parser/myparser.py': ['C18', 'C20', 'C19', 'C21'],
    'parser/parse_and_exec.py': ['C20', 'C19', 'C18', 'C21', 'C12'],
}
CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
SWAP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'],
        ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['+', '//'], ast.FloorDiv: ['*', '/'], ast.Div: ['//'], ast.Mod: ['//'], ast.Pow: ['*'], ast.RShift: ['<<']}


def mutants(src):
    """(what, new source) for every small edit"""
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()) + 1)
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    def put(n, new):
        a, b = span(n)
        return (raw[:a] + new.encode() + raw[b:]).decode()

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Module, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(n.body[0])
            skip.add(n.body[0].value)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ('logger', 'logging'):
            skip.update(ast.walk(n))
        if isinstance(n, ast.Assert) and n.msg is not None:
            skip.update(ast.walk(n.msg))
        if isinstance(n, ast.Raise):
            skip.update(ast.walk(n))
        if isinstance(n, ast.AnnAssign):
            skip.update(ast.walk(n.annotation))
        if isinstance(n, ast.arg) and n.annotation is not None:
            skip.update(ast.walk(n.annotation))
        if isinstance(n, ast.FunctionDef) and n.returns is not None:
            skip.update(ast.walk(n.returns))
    out = []

    def add(n, what, new):
        out.append((f'{n.lineno}: {what}', new))

    for n in ast.walk(tree):
        if n in skip or not hasattr(n, 'lineno') and not isinstance(n, ast.comprehension):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in SWAP[type(n.ops[0])]:
                new = f'{text(n.left)} {op} {text(n.comparators[0])}'
                add(n, f'{text(n)} -> {new}', put(n, new))
        elif isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                parts = [text(n.left)]
                for j, (q, c) in enumerate(zip(n.ops, n.comparators)):
                    parts += [SWAP[type(q)][0] if i == j else CMP[type(q)], text(c)]
                add(n, f'{text(n)} -> {" ".join(parts)}', put(n, ' '.join(parts)))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            for op in BIN[type(n.op)]:
                new = f'({text(n.left)} {op} {text(n.right)})'
                add(n, f'{text(n)} -> {new}', put(n, new))
            if isinstance(n.op, (ast.Sub, ast.FloorDiv, ast.Pow, ast.Div)):
                new = f'({text(n.left)})'
                add(n, f'{text(n)} -> {new}', put(n, new))
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            new = '(' + op.join(f'({text(v)})' for v in n.values) + ')'
            add(n, f'{text(n)} -> {new}', put(n, new))
            for i in range(len(n.values)):
                j = ' and ' if isinstance(n.op, ast.And) else ' or '
                new = '(' + j.join(f'({text(v)})' for k, v in enumerate(n.values) if k != i) + ')'
                add(n, f'{text(n)} -> {new}', put(n, new))
        elif isinstance(n, ast.UnaryOp):
            if isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
                add(n, f'{text(n)} -> {text(n.operand)}', put(n, f'({text(n.operand)})'))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, f'{n.value} -> {not n.value}', put(n, str(not n.value)))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            for v in (n.value + 1, n.value - 1):
                add(n, f'const {n.value} -> {v}', put(n, f'({v})' if v < 0 else str(v)))
        elif isinstance(n, ast.Constant) and n.value is None:
            pass
        elif isinstance(n, ast.IfExp):
            add(n, f'{text(n)} -> first', put(n, f'({text(n.body)})'))
            add(n, f'{text(n)} -> second', put(n, f'({text(n.orelse)})'))
        if isinstance(n, (ast.If, ast.While)) and 'verbose' not in text(n.test):
            add(n, f'if {text(n.test)} -> True', put(n.test, 'True'))
            add(n, f'if {text(n.test)} -> False', put(n.test, 'False'))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break)) and n.lineno > 0 and n not in skip:
            add(n, f'del {text(n)[:60]}', put(n, 'pass'))
        if isinstance(n, ast.Assert):
            add(n, f'del {text(n)[:60]}', put(n, 'pass'))
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            a0, a1 = n.args[0], n.args[1]
            (x, y), (z, w) = span(a0), span(a1)
            new = (raw[:x] + raw[z:w] + raw[y:z] + raw[x:y] + raw[w:]).decode()
            add(n, f'swap {text(n)[:60]}', new)
        if isinstance(n, ast.Call) and len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name) and n.func.id in (
                'int', 'abs', 'tuple', 'list', 'sorted', 'set', 'str', 'sum', 'round', 'dict'):
            add(n, f'{text(n)[:60]} -> arg', put(n, f'({text(n.args[0])})'))
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            for g in n.generators:
                for c in g.ifs:
                    add(n, f'comp if {text(c)[:50]} -> True', put(c, 'True'))
        if isinstance(n, ast.keyword) and isinstance(n.value, ast.AST):
            pass
    seen, res = set(), []
    out = [o for o in out if 'logger' not in o[0] and 'verbose' not in o[0]]
    for what, new in out:
        if new != src and new not in seen:
            try:
                ast.parse(new)
            except SyntaxError:
                continue
            seen.add(new)
            res.append((what, new))
    return res


def setup(base, k):
    d = f'{base}/w{k}'
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d + '/pp')
    subprocess.run(['cp', '-a', os.environ.get('MUT_REPO', '/repo'), d + '/repo'], check=True)
    subprocess.run(['cp', '-a', VERIF, d + '/verif'], check=True)
    os.symlink(f'{d}/repo/src', f'{d}/pp/dice_calc')
    return d


def run(cmd, env, cwd, limit):
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=limit)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 'limit', ''


def work(args):
    base, k, jobs, scale, seed, full = args
    d = setup(base, k)
    env = dict(os.environ, PYTHONPATH=d + '/pp', VERIF_REPO=d + '/repo', PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent', PYTHONHASHSEED='0')
    sys.path.insert(0, VERIF + '/harness')
    import plans
    with open(f'{base}/out{k}.ndjson', 'a') as log:
        for f, what, new in jobs:
            path = f'{d}/repo/src/{f}'
            keep = open(path).read()
            open(path, 'w').write(new)
            rec = {'file': f, 'what': what}
            rc, _ = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=100', '--ignore=test/test_fetch.py', 'test'], env, d + '/repo', 200)
            if rc != 0:
                rec['tests'] = 'fail'
            else:
                rec['tests'] = 'pass'
                rec['checks'] = {}
                for c in FILES[f]:
                    rc, out = run(['python3', 'check.py', c, '--seed', str(seed), '--scale', str(scale)] + ([] if full else ['--part', plans.PLANS[c][0].name]), env, d + '/verif', 600)
                    bad = [x for x in out.split('\n') if x.startswith('VIOLATION') or '"clause"' in x]
                    rec['checks'][c] = [rc, bad[1][:150] if len(bad) > 1 else (out[-300:] if rc not in (0, 1) else '')]
                    if rc == 1:
                        rec['caught'] = c
                        break
            open(path, 'w').write(keep)
            log.write(json.dumps(rec) + '\n')
            log.flush()
    shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--out', required=True)
    ap.add_argument('--files')
    ap.add_argument('--workers', type=int, default=4)
    ap.add_argument('--max', type=int, default=10 ** 9)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--scale', type=float, default=0.4)
    ap.add_argument('--again', help='results.ndjson of an earlier run: the mutants nothing caught there, now with whole checks')
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    jobs = []
    for f in (a.files.split(',') if a.files else FILES):
        ms = mutants(open(os.environ.get('MUT_REPO', '/repo') + '/src/' + f).read())
        print(f, len(ms), file=sys.stderr)
        jobs += [(f, w, s) for w, s in ms]
    if a.list:
        for f, w, s in jobs:
            print(f, w)
        return
    random.Random(a.seed).shuffle(jobs)
    jobs = jobs[:a.max]
    if a.again:
        old = [json.loads(x) for x in open(a.again)]
        old = {(o['file'], o['what']) for o in old if o['tests'] == 'pass' and 'caught' not in o}
        jobs = [j for j in jobs if (j[0], j[1]) in old]
    os.makedirs(a.out, exist_ok=True)
    with multiprocessing.Pool(a.workers) as pool:
        pool.map(work, [(a.out, k, jobs[k::a.workers], a.scale, a.seed, bool(a.again)) for k in range(a.workers)], chunksize=1)


if __name__ == '__main__':
    main()
