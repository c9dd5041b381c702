"""Runs API histories against the real dice_calc of /repo and records what it answered.

usage: realapi.py IN.ndjson OUT.ndjson M [jobs]
Every history runs in its own forked process (fresh caches and settings), with time and memory limits.
"""
import json
import math
import operator
import os
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import project  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
EVENT_TIMEOUT = float(os.environ.get('VERIF_EVENT_TIMEOUT', '30'))
HIST_TIMEOUT = float(os.environ.get('VERIF_HIST_TIMEOUT', '150'))
MEM = 3 << 30


class Timeout(BaseException):
    pass


class Planned(Exception):
    """raised on purpose by a generated function body"""


def import_real():
    try:
        import dice_calc
        import dice_calc.funclib, dice_calc.altcast, dice_calc.settings, dice_calc.parser.parse_and_exec  # noqa
    except Exception:
        traceback.print_exc()
        raise SystemExit('REPO-IMPORT-FAILED')
    want = os.path.realpath(os.path.join(REPO, 'src', '__init__.py'))
    got = os.path.realpath(dice_calc.__file__)
    if got != want:
        raise SystemExit(f'dice_calc imported from {got}, expected {want}')
    return dice_calc


BIN = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'floordiv': operator.floordiv, 'truediv': operator.truediv,
       'mod': operator.mod, 'pow': operator.pow, 'eq': operator.eq, 'ne': operator.ne, 'lt': operator.lt, 'le': operator.le,
       'gt': operator.gt, 'ge': operator.ge, 'and': operator.and_, 'or': operator.or_, 'at': operator.matmul}
UN = {'neg': operator.neg, 'pos': operator.pos, 'not': operator.invert, 'abs': abs, 'floor': math.floor, 'ceil': math.ceil,
      'trunc': math.trunc, 'len': len, 'bool': lambda x: int(bool(x))}


class Session:
    def __init__(self, M):
        self.dc = sys.modules['dice_calc']
        self.M = M
        self.proj = project.Projector(M)
        self.store = []
        self.printed = []       # texts that reached a print function: (printer id, text)
        self.calls = None

    # ---- building values ----
    def number(self, e):
        n, d = e['v'][0], e['v'][1]
        if e.get('bool'):
            return bool(n)
        if d == 1:
            return float(n) if e.get('fl') else n
        return n / d

    def run(self, e, p=(), fn=None):
        op = e['op']
        R = lambda x: self.run(x, p, fn)  # noqa: E731
        dc = self.dc
        if op == 'n':
            return self.number(e)
        if op == 'text':
            e['k'] = project.codes(e['s'])
            return e['s'] if e.get('raw') else sys.modules['dice_calc.string_rvs'].StringVal.from_str(e['s'])
        if op == 'rv':
            vals = [self.number({'v': v, 'fl': f, 'bool': b}) for v, f, b in zip(e['v'], e.get('fl') or [0] * len(e['v']), e.get('bl') or [0] * len(e['v']))]
            W = [x if not isinstance(x, list) else x[0] / x[1] for x in e['W']]
            if e.get('gen'):
                vals, W = (v for v in vals), (w for w in W)
            tr = e.get('tr', 0)
            if tr:
                return dc.RV(vals, W, truncate=(tr == 2))
            return dc.RV(vals, W)
        if op == 'const':
            return dc.RV.from_const(self.number(e))
        if op == 'loose':       # an answer that is not judged, only watched
            return R(e['a'][0])
        if op == 'blank':
            return dc.BlankRV()
        if op == 'none':
            return None
        if op == 'str':
            return e['s']
        if op == 'p':
            return p[e['i'] - 1]
        if op == 'x':
            return self.store[e['i'] - 1]
        if op == 'seq':
            a = [R(x) for x in e['a']]
            c = e.get('c', 0)
            if c == 4:
                return dc.StringSeq(tuple(a))
            return dc.Seq(*a) if c == 0 else dc.get_seq(*a) if c == 1 else dc.Seq(a) if c == 2 else dc.get_seq(a)
        if op == 'list':
            a = [R(x) for x in e['a']]
            return a if not e.get('tup') else tuple(a)
        if op == 'range':
            return dc.myrange(e['lo'], e['hi']) if e.get('my') else range(e['lo'], e['hi'] + 1)
        if op == 'fromseq':
            return dc.RV.from_seq([R(x) for x in e['a']])
        if op in BIN:
            a = R(e['a'][0])
            b = a if e.get('same') else R(e['a'][1])
            if op == 'at' and e.get('my'):
                return dc.myMatmul(a, b)
            if op in ('and', 'or') and e.get('my'):
                return (dc.myAnd if op == 'and' else dc.myOr)(a, b)
            return BIN[op](a, b)
        if op in UN:
            a = R(e['a'][0])
            if e.get('my') and op == 'len':
                return dc.myLen(a)
            if e.get('my') and op == 'not':
                return dc.myInvert(a)
            return UN[op](a)
        if op == 'round':
            a = [R(x) for x in e['a']]
            return round(*a)
        if op == 'roll':
            a = [R(x) for x in e['a']]
            if e.get('D'):
                D = dc.altcast.D
                return D * a[0] if len(a) == 1 else a[0] * D * a[1]
            return dc.roll(*a)
        if op == 'rollstr':
            return dc.roll(e['s'])
        if op == 'mix':
            a = [R(x) for x in e['a']]
            return dc.RV.from_rvs(a) if e.get('W') is None else dc.RV.from_rvs(a, e['W'])
        if op == 'filter':
            a = [R(x) for x in e['a']]
            return a[0].filter(a[1])
        if op in ('samedie', 'sameseq'):
            a = R(e['a'][0])
            b = a if e.get('same') else R(e['a'][1])
            return int(dc.RV.dices_are_equal(a, b)) if op == 'samedie' else int(dc.Seq.seqs_are_equal(a, b))
        if op == 'lib':
            return self.lib(e, [R(x) for x in e['a']])
        if op == 'call':
            f = self.function(e['fn'])
            return self.apply(f, e, [R(x) for x in e['a']])
        if op == 'self':
            return self.apply(fn, e, [R(x) for x in e['a']])
        if op == 'if':
            c = R(e['c'])
            return R(e['a'][0]) if c else R(e['a'][1])
        if op == 'raise':
            raise Planned('planned')
        raise AssertionError('unknown op ' + op)

    LIB = {'absolute': 'absolute', 'contains': 'contains', 'count_in': 'count_in', 'reverse': 'reverse', 'sort': 'sort', 'maximum_of': 'maximum_of',
           'explode': 'explode', 'highest': 'highest_N_of_D', 'lowest': 'lowest_N_of_D', 'middle': 'middle_N_of_D',
           'highest_of': 'highest_of_N_and_N', 'lowest_of': 'lowest_of_N_and_N', 'gwf': 'gwf', 'reverse_slow': 'reverse_VANILLA_SLOW', 'sort_slow': 'sort_VANILLA_SLOW'}
    LIBPUB = {'absolute': 'absolute_X', 'contains': 'X_contains_X', 'count_in': 'count_X_in_X', 'reverse': 'reverse_X', 'sort': 'sort_X', 'maximum_of': 'maximum_of_X',
              'explode': 'explode_X', 'highest': 'highest_X_of_X', 'lowest': 'lowest_X_of_X', 'middle': 'middle_X_of_X',
              'highest_of': 'highest_of_X_and_X', 'lowest_of': 'lowest_of_X_and_X'}

    def lib(self, e, a):
        f = getattr(self.dc, self.LIBPUB[e['f']]) if e['f'] in self.LIBPUB else getattr(self.dc.funclib, self.LIB[e['f']])
        if 'depth' in e:
            return f(*a, depth=e['depth'])
        return f(*a)

    def function(self, fn):
        names = ['A', 'B', 'C', 'DD', 'EE'][:len(fn['ty'])]
        ann = {'N': ': T_N', 'S': ': T_S', 'D': ': T_D', '-': '', 'o': ': object'}
        kwo = fn.get('kwo', 0)      # the last kwo parameters are keyword-only
        parts = [n + ann[t] for n, t in zip(names, fn['ty'])]
        if kwo:
            parts.insert(len(parts) - kwo, '*')
        src = f"def F({', '.join(parts)}):\n  return __body([{', '.join(names)}])\n"
        dc = self.dc
        holder = []

        def body(args):
            if self.calls is not None and fn.get('rec'):
                self.calls.append([self.proj(x) for x in args])
            return self.run(fn['body'], args, holder[0])
        g = {'T_N': dc.T_N, 'T_S': dc.T_S, 'T_D': dc.T_D, '__body': body}
        exec(src, g)
        F = g['F']
        if fn['dec'] == 'cast':
            F = dc.anydice_casting()(F)
        elif fn['dec'] == 'type':
            F = dc.anydice_type_casting()(F)
        elif fn['dec'] == 'depth':
            F = dc.max_func_depth()(F)
        holder.append(F)
        return F

    def apply(self, f, e, a):
        k = e.get('kw', 0)          # the last k arguments are passed by keyword (reversed order if kwrev)
        names = ['A', 'B', 'C', 'DD', 'EE']
        pos, kws = a[:len(a) - k], list(zip(names[len(a) - k:], a[len(a) - k:]))
        if e.get('kwrev'):
            kws.reverse()
        return f(*pos, **dict(kws))

    # ---- events ----
    def guarded(self, thunk):
        signal.setitimer(signal.ITIMER_REAL, EVENT_TIMEOUT)
        try:
            try:
                v = thunk()
                return v, None
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Timeout:
            return None, {'t': 'timeout'}
        except RecursionError:
            return None, {'t': 'err', 'x': 'RecursionError'}
        except MemoryError:
            return None, {'t': 'timeout'}
        except Exception as ex:  # noqa
            return None, {'t': 'err', 'x': type(ex).__name__ + ': ' + str(ex)[:200]}

    def project(self, v):
        """the observation of a value; total: what cannot be observed becomes an observation no specified value equals"""
        p, o = self.guarded(lambda: self.proj(v))
        return p if o is None else {'t': 'other', 'x': str(o)}

    def describe(self, v, o):
        """a value in full, value types and description included, as one text"""
        t, err = self.guarded(lambda: [type(v).__name__, [type(y).__name__ for y in getattr(v, 'vals', ())], str(v)])
        o = {k: y for k, y in o.items() if k != 'x'}
        return json.dumps([o, t if err is None else 'undescribable'], sort_keys=True)

    def touch(self, v, how):
        """uses of a value that must leave everything as it was"""
        dc = self.dc
        sink = lambda *a, **k: None  # noqa
        uses = {'mean': lambda: v.mean(), 'std': lambda: v.std(), 'pairs': lambda: v.get_vals_probs(), 'cut': lambda: v.get_vals_probs(0.3), 'cdf': lambda: v.get_cdf(),
                'output': lambda: dc.output(v, print_fn=sink), 'repr': lambda: repr(v), 'roller': lambda: dc.roller(v, 3), 'hash': lambda: hash(v), 'filter': lambda: v.filter(1),
                'compile': lambda: self.compile_something(v)}
        self.guarded(uses[how])

    def compile_something(self, v):
        pe = sys.modules['dice_calc.parser.parse_and_exec']
        src = pe.compile_anydice('function: f A:s { result: 1@A + #A }\noutput [f 2d6]\noutput 3d{1,2,2}\nX: 4\nloop P over {1..X} { output [explode Pd3] named "n [P]" }')
        pe.unsafe_exec(src)
        try:
            pe.compile_anydice('output [nope 3] (')
        except Exception:  # noqa
            pass

    def event(self, ev):
        k = ev['k']
        if k == 'ev':
            self.calls = [] if ev.get('calls') else None
            v, o = self.guarded(lambda: self.run(ev['e']))
            if o is None:
                o = self.project(v)
            if ev.get('calls'):
                ev['calls'] = self.calls
            self.calls = None
            self.store.append(v)
            ev['o'] = o
            if ev.get('fresh') is not None:
                ev['os'] = self.describe(v, o)
        elif k == 'look':
            ev['o'] = self.project(self.store[ev['i'] - 1])
        elif k == 'set':
            val = ev['v']
            if ev['vt'] == 'fn':
                val = (lambda i: lambda *a, **kw: self.printed.append((i, a[0] if a else None)))(ev['v'])
            elif ev['vt'] == 'other':
                val = {'none': None, 'float': 2.5, 'list': [1], 'obj': object()}[ev['v']]
            v, o = self.guarded(lambda: self.dc.settings_set(ev['name'], val))
            ev['o'] = {'t': 'none'} if o is None else o
        elif k == 'reset':
            v, o = self.guarded(lambda: self.dc.settings_reset())
            ev['o'] = {'t': 'none'} if o is None else o
        elif k == 'touch':
            self.touch(self.store[ev['i'] - 1], ev['how'])
        elif k == 'touch2':
            v, o = self.guarded(lambda: self.run(ev['e']))
            self.touch(v, ev['how'])
        elif k == 'big':
            import facts
            v, o = self.guarded(lambda: self.run(ev['e']))
            if o is None:
                r, o = self.guarded(lambda: facts.big(self, v, ev))
            ev['o'] = r if o is None else o
        elif k == 'fact':
            import facts
            facts.observe(self, ev)
        else:
            raise AssertionError('unknown event ' + k)


def limbs(k):
    out = []
    while k:
        out.append(k % 10000)
        k //= 10000
    return out


def fill_residues(e, M):
    """exact weights (field W, any size) become residues (field w), the only form the specification sees"""
    if isinstance(e, list):
        for x in e:
            fill_residues(x, M)
    elif isinstance(e, dict):
        if e.get('op') == 'rv':
            if e.pop('X', None):
                e['B'] = [limbs(x) for x in e['W']]
            e['w'] = [project.residue(x, M) for x in e.pop('W')]
        elif e.get('op') == 'mix':
            W = e.pop('W', None)
            e['w'] = [1] * len(e['a']) if W is None else [project.residue(x, M) for x in W]
        for x in list(e.values()):
            if isinstance(x, (dict, list)):
                fill_residues(x, M)


def run_history(hist, M):
    for i, ev in enumerate(hist['ev']):
        if ev['k'] == 'ev' and ev.get('fresh') is not None:
            ev['fs'] = fresh(hist['ev'][:i], ev, M)
    s = Session(M)
    for ev in hist['ev']:
        s.event(ev)
    return hist


def fresh(before, ev, M):
    """the same event in a process that has done nothing but the settings calls"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            s = Session(M)
            for b in before:
                if b['k'] in ('set', 'reset'):
                    s.event(b)
            s.event(ev)
            data = ev['os']
        except BaseException:
            data = 'crashed: ' + traceback.format_exc()[-500:]
        with os.fdopen(w, 'w') as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return data


def child(hist, M, fd):
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    sys.setrecursionlimit(3000)

    def onalarm(*_):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    devnull = os.open('/dev/null', os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    import logging
    logging.disable(logging.CRITICAL)
    try:
        out = RUNNER(hist, M)
        data = json.dumps(out)
    except BaseException:
        data = json.dumps({'id': hist.get('id'), 'crash': traceback.format_exc()[-3000:]})
    with os.fdopen(fd, 'w') as f:
        f.write(data)
    os._exit(0)


RUNNER = run_history


def worker(hists, M, outpath):
    with open(outpath, 'w') as out:
        for hist in hists:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                child(hist, M, w)
            os.close(w)
            os.set_blocking(r, False)
            buf, t0, dead = b'', time.time(), False
            import select
            while True:
                if time.time() - t0 > HIST_TIMEOUT:
                    os.kill(pid, signal.SIGKILL)
                    dead = True
                    break
                ready, _, _ = select.select([r], [], [], 1.0)
                if ready:
                    chunk = os.read(r, 1 << 20)
                    if not chunk:
                        break
                    buf += chunk
            os.close(r)
            os.waitpid(pid, 0)
            line = None
            if buf and not dead:
                try:
                    line = json.loads(buf.decode())
                except ValueError:
                    line = None
            if line is None:
                line = {'id': hist.get('id'), 'dead': 1}
            line['tag'] = hist.get('tag', '')
            if 'ev' in line:
                fill_residues(line['ev'], M)
            out.write(json.dumps(line) + '\n')


def main(argv):
    src, dst, M = argv[1], argv[2], int(argv[3])
    jobs = int(argv[4]) if len(argv) > 4 else 8
    import_real()
    hists = [json.loads(x) for x in open(src)]
    jobs = max(1, min(jobs, len(hists)))
    pids, parts = [], []
    sys.stdout.flush()
    for j in range(jobs):
        part = f'{dst}.part{j}'
        parts.append(part)
        pid = os.fork()
        if pid == 0:
            try:
                worker(hists[j::jobs], M, part)
                os._exit(0)
            except BaseException:
                traceback.print_exc()
                os._exit(1)
        pids.append(pid)
    bad = 0
    for pid in pids:
        _, stt = os.waitpid(pid, 0)
        bad |= stt != 0
    lines = []
    for part in parts:
        lines += open(part).read().splitlines() if os.path.exists(part) else []
        if os.path.exists(part):
            os.remove(part)
    with open(dst, 'w') as f:
        for x in lines:
            f.write(x + '\n')
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv))
