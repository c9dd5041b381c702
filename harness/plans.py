"""What each property's check runs."""
import functools
import json
import random

import core
import gen
import landmarks
import progen

ASSUMPTIONS = [
    'weights are compared modulo a prime M (chosen by the seed): a wrong weight escapes with probability about 1/M per outcome',
    'values outside the specified range (magnitude over 10^9, inexact binary fractions) are not judged',
]


class Api:
    """random API histories judged by SessionTrace"""
    repeat = True

    def __init__(self, name, f, quick, thorough=None):
        self.name, self.f, self.quick, self.thorough = name, f, quick, thorough or quick * 6
    runner, module, cfg = 'realapi.py', 'SessionTrace.tla', 'SessionTrace.cfg'

    def run(self, run, k=0):
        cnt = self.quick if run.tier == 'quick' else self.thorough
        seed = run.seed if k == 0 else f'{run.seed}.{k}'
        run.histories(self.name, gen.many(f'{run.prop}-{self.name}', seed, int(cnt * run.scale), self.f), self.runner, self.module, self.cfg)

    def replay(self, run, rep):
        run.histories(self.name, [rep['history']], self.runner, self.module, self.cfg)


class Prog(Api):
    """random programs judged by ProgTrace"""
    runner, module, cfg = 'realprog.py', 'ProgTrace.tla', 'ProgTrace.cfg'


class Landmarks(Api):
    """histories that every run replays"""
    repeat = False

    def __init__(self, hists, prog=False):
        self.name, self.hists = 'landmarks', hists
        if prog:
            self.runner, self.module, self.cfg = Prog.runner, Prog.module, Prog.cfg

    def run(self, run, k=0):
        run.histories(self.name, [{'id': f'{run.prop}-landmarks-{i}', 'ev': json.loads(json.dumps(h))} for i, h in enumerate(self.hists)], self.runner, self.module, self.cfg)


class Model:
    """design-level model checking"""
    repeat = False

    def __init__(self, name, module, cfg, expect=None, thorough_only=False, constants=None, invariants=None, deep=None):
        self.name, self.module, self.cfg, self.expect, self.thorough_only, self.constants = name, module, cfg, expect, thorough_only, constants
        self.invariants, self.deep = invariants, deep or {}

    def run(self, run, k=0):
        if self.thorough_only and run.tier == 'quick':
            return
        constants = {**(self.constants or {}), **(self.deep if run.tier == 'thorough' else {})}
        run.model(self.name, self.module, self.cfg, self.expect, constants, self.invariants)


class Calls:
    """scripts of nested calls, enumerated by TLC from the call machine and drawn at random, run by the real decorators and judged by DepthTrace"""
    repeat = True

    def __init__(self, name, quick_steps, thorough_steps, count):
        self.name, self.steps, self.count = name, (quick_steps, thorough_steps), count

    def run(self, run, k=0):
        scripts = []
        if k == 0:
            steps = self.steps[0 if run.tier == 'quick' else 1]
            rc, out = core.tlc('GenDepth.tla', 'GenDepth.cfg', run.dir, constants={'Steps': steps})
            for line in out.splitlines():
                if line.startswith('"SCRIPT '):
                    scripts.append(json.loads(line[8:-1].replace('\\"', '"')))
            if rc != 0 or len(scripts) < 1000:
                raise core.Machinery('GenDepth: ' + out[-2000:])
            scripts.sort(key=json.dumps)
            run.note(self.name, enumerated=len(scripts), depth=steps)
        g = gen.G(random.Random(f'{run.seed}.{k}.calls'))
        scripts += [gen.call_script(g) for _ in range(int(self.count * run.scale * (1 if run.tier == 'quick' else 5)))]
        size = 200
        hists = [{'id': f'{self.name}-{run.seed}-{k}-{i // size}', 'scripts': scripts[i:i + size]} for i in range(0, len(scripts), size)]
        self.judge(run, hists)

    def judge(self, run, hists):
        run.histories(self.name, hists, 'realdepth.py', 'DepthTrace.tla', 'DepthTrace.cfg', narrow=self.narrow)

    def narrow(self, h, rec, l):
        i = sum(1 for e in rec['ev'][:l] if e['k'] == 'new') - 1
        return {'id': h['id'] + f'-{i}', 'scripts': [h['scripts'][i]]}

    def replay(self, run, rep):
        self.judge(run, [rep['history']])


class Enumerated(Api):
    """every script of a small scope, enumerated by TLC from the specification, as histories for the real code"""
    repeat = False

    def __init__(self, name, module, constants, make, deep=None, prog=False, late=False, alone=False):
        self.alone = alone
        self.name, self.enum, self.constants, self.make, self.deep, self.late = name, module, constants, make, deep or {}, late
        if prog:
            self.runner, self.module, self.cfg = Prog.runner, Prog.module, Prog.cfg

    def run(self, run, k=0):
        if self.late and run.tier == 'quick':
            return
        constants = {**self.constants, **(self.deep if run.tier == 'thorough' else {})}
        got, states = core.scripts(self.enum + '.tla', self.enum + '.cfg', run.dir, constants)
        run.states += states
        run.note(self.name, enumerated=len(got))
        r = random.Random(f'{run.seed}.{self.name}')
        got = self.make(got, r, run.tier)
        size = 1 if not got else max(1, min(40, sum(len(x) for x in got) // 800 + 1) // max(1, len(got[0])))
        if self.alone:
            size = 1
        if run.scale < 1:
            got = got[:max(1, int(len(got) * run.scale))]
        hists = []
        for i in range(0, len(got), size):
            hists.append({'id': f'{self.name}-{run.seed}-{i}', 'ev': [e for x in got[i:i + size] for e in x]})
        for i in range(0, len(hists), 20000):
            if i == 0 or run.left() > 200:
                run.histories(self.name, hists[i:i + 20000], self.runner, self.module, self.cfg)


def laws(invariants, variant=None, expect=None):
    """laws of dice on every small die; optionally a broken definition they must reject"""
    deep = {'Outcomes': '{0, 1, 3, 8}', 'Weights': '{0, 1, 3}', 'MaxN': 4}
    out = [Model('laws', 'MCDist.tla', 'MCDist.cfg', invariants=invariants, deep=deep)]
    if variant:
        out.append(Model('laws-' + variant.replace(' ', '-'), 'MCDist.tla', 'MCDist.cfg', expect, constants={'Variant': f'"{variant}"'}, invariants=expect))
    return out


def kinds(invariants, variant=None, expect=None):
    """how kinds of values combine, on every pair of small values under every setting"""
    deep = {'Elements': '{0, 2, 3, 5}'}
    out = [Model('kinds', 'MCValues.tla', 'MCValues.cfg', invariants=invariants, deep=deep)]
    if variant:
        out.append(Model('kinds-' + variant, 'MCValues.tla', 'MCValues.cfg', expect, constants={'Variant': f'"{variant}"'}, invariants=expect))
    return out


def memo():
    return [Model('memo' + ('-' + v if v else ''), 'MCMemo.tla', 'MCMemo.cfg', 'SameAnswer' if v else None, constants={'Variant': f'"{v or "good"}"'}, deep={} if v else {'Cap': 3}, thorough_only=v in ('weights', 'count', 'kind'))
            for v in ['', 'weights', 'settings', 'order', 'count', 'kind']]


def syntax():
    return [Model('syntax', 'MCLang.tla', 'MCLang.cfg', deep={'BinOps1': '{"|", "&", "=", "!=", "<=", ">", "+", "-", "*", "/", "^", "@"}'})] + [
        Model('syntax-' + v, 'MCLang.tla', 'MCLang.cfg', 'Sparse', constants={'Variant': f'"{v}"'}) for v in ['right', 'flat']]


def programs():
    """what programs mean, on every Stride-th program of two patterns"""
    laws = 'Renamed Unrolled Nested DeadCode Prefix Private OneScope'
    out = [Model('programs-' + kind, 'MCProg.tla', 'MCProg.cfg', invariants=laws, constants={'Kind': f'"{kind}"', 'Stride': n}, deep={'Stride': d}) for kind, n, d in [('flow', 9, 1), ('scopes', 120, 5)]]
    out.append(Model('programs-dynamic', 'MCProg.tla', 'MCProg.cfg', invariants=laws, constants={'Kind': '"scopes"', 'Stride': 190, 'Dyn': 'TRUE'}, deep={'Stride': 11}))
    return out + [Model('programs-' + v, 'MCProg.tla', 'MCProg.cfg', law, constants={'Variant': f'"{v}"', 'Stride': 40}, invariants=law) for v, law in [('capture', 'Renamed'), ('last', 'Unrolled')]]


def ops(part):
    return Enumerated('every-operator', 'GenSession', {'Kind': '"ops"', 'Part': f'"{part}"'}, gen.enum_ops)


def uses(kind):
    """every use of that kind of small dice"""
    return Enumerated(f'every-{kind}', 'GenUses', {'Kind': f'"{kind}"'}, gen.enum_uses, {'Steps': 2})


def texts(kind, size=2, deep=None, late=False, quick=400):
    return Enumerated(f'every-{kind}', 'GenText', {'Kind': f'"{kind}"', 'Size': size}, functools.partial(progen.enum_texts, quick=quick), {'Size': deep or size}, prog=True, late=late)


PLANS = {
    'C01': [Api('build', gen.c01, 1500)],
    'C02': [Api('operators', gen.c02, 1000)] + laws('Complement Swapped DivMod') + kinds('Complementary Mirrored MinusPlus Commutes') + [ops('dice')],
    'C03': [Api('sequences', gen.c03, 1500), ops('seq')] + kinds('ActsAsSum ActsAsSumRight Counts CountsFlipped Everywhere WithDie Positions1 Positions2', 'order', 'ActsAsSum'),
    'C04': [Api('rolls', gen.c04, 500)] + laws('Sums SumsSplit', 'same die', 'Sums') + [uses('rolls')] + kinds('RollNegative RollByLength RollZero RollBlank PoolSize'),
    'C05': [Api('mixtures', gen.c05, 1200)] + laws('MixScale MixOrder MixSelf MixNested', 'unscaled', 'MixScale') + [uses('mixes')],
    'C06': [Api('selection', gen.c06, 500)] + laws('OrderStatistics Mirror Positions AllPositions EitherOrder', 'ties', 'OrderStatistics') + [uses('select')],
    'C07': [Api('casts', gen.c07, 1200)] + laws('CastN CastS CastHighest CastMissing') + [uses('casts')],
    'C08': [Api('expansion', gen.c08, 800)] + laws('SortedRolls CastS CastHighest', 'orders', 'SortedRolls') + [uses('expand')],
    'C09': [Api('blanks', gen.c09, 1200), ops('blank')] + kinds('BlankNeutral BlankAbsorbs OtherBlank BlankLengths'),
    'C10': [Api('calls', gen.c10, 500), Calls('scripts', 5, 6, 3000)] + [Model('machine' + ('' if not v else '-' + v), 'MCDepth.tla', 'MCDepth.cfg', e, constants={'Variant': f'"{v or "good"}"'}) for v, e in
            [('', None), ('leak', 'Restored'), ('eq', 'Restored'), ('rewarn', 'OnceOnly'), ('decrement', 'Restored')]],
    'C11': [Api('library', gen.c11, 800)] + laws('HighLow ExplodeOnce') + [uses('library')],
    'C12': [Api('settings', gen.c12, 600), Enumerated('every-setting', 'GenSession', {'Kind': '"settings"', 'Steps': 2}, gen.enum_settings)],
    'C13': [Api('sharing', gen.c13, 500), Enumerated('every-use', 'GenUses', {'Kind': '"share"'}, gen.enum_share, {'Steps': 2}, alone=True)],
    'C14': [Api('caches', gen.c14, 1000), Enumerated('every-pair', 'GenSession', {'Kind': '"memo"', 'Steps': 2}, gen.enum_memo)] + memo(),
    'C15': [Api('statistics', gen.c15, 1000), uses('facts')],
    'C16': [Api('printing', gen.c16, 800)],
    'C17': [Api('sampling', gen.c17, 600)],
    'C18': [Prog('expressions', progen.c18, 300), texts('pairs'), texts('unary'), texts('triples', late=True)] + syntax(),
    'C19': [Prog('programs', progen.c19, 230), texts('scopes', quick=240), texts('flow', quick=120), texts('decls', quick=160), texts('sets', quick=80)] + programs(),
    'C20': [Prog('acceptance', progen.c20, 300), texts('tokens', 2, 3), texts('lines', 3, 4), texts('blocks', 4, 5)],
    'C21': [Prog('names', progen.c21, 250), texts('heads', quick=200), texts('words', quick=120), texts('vars', quick=120)],
    'C22': [Api('texts', gen.c22, 600)],
    'C23': [Api('huge', gen.c23, 90)] + laws('FixedSums FixedKth Sums OrderStatistics'),
    'C24': [Api('descriptions', gen.c24, 1000), uses('describe')],
}

for _prop, _hists in [*landmarks.api().items(), ('C23', landmarks.big())]:
    PLANS[_prop].append(Landmarks(_hists))
for _prop, _hists in landmarks.programs().items():
    PLANS[_prop].append(Landmarks(_hists, prog=True))

NOT_YET = {}
NOTE = ('Every answer recorded from the real code on generated histories is decided by TLC against the TLA+ specification (independent of the '
        'implementation). Bounded by the generated inputs; weights compared modulo a prime chosen by the seed; trusts the projection in harness/project.py.')
NOTES = {}
