"""Random generation of API histories (inputs only: what the answers should be is decided by the TLA+ specification)."""
import json
import math
import copy
import random

ARITH = ['add', 'sub', 'mul', 'floordiv', 'truediv', 'mod', 'pow']
CMP = ['eq', 'ne', 'lt', 'le', 'gt', 'ge']
BOOL = ['and', 'or']
TRUE_WORDS = ['true', 'True', 'TRUE', 'tRuE']
FALSE_WORDS = ['false', 'False', 'FALSE', 'fAlSe']


def n(v, d=1):
    return {'op': 'n', 'v': [v, d]}


def x(i):
    return {'op': 'x', 'i': i}


def ev(e, **kw):
    return {'k': 'ev', 'e': e, **kw}


def sett(name, vt, v):
    return {'k': 'set', 'name': name, 'vt': vt, 'v': v}


RESET = {'k': 'reset'}


LANDMARKS = [99, 255, 256, 257, 999, 1000, 1001, 4096, 9999, 10000, 65536, 10**6 - 1, 10**6, 10**6 + 1, 1234567, 16777217, 10**8, 123456789, 999999999, 10**9]


class G:
    hostlists = False       # may function bodies return plain lists of the host language

    def __init__(self, rng):
        self.r = rng if isinstance(rng, random.Random) else random.Random(rng)

    def ch(self, xs):
        return self.r.choice(xs)

    def p(self, q):
        return self.r.random() < q

    # ---- leaves ----
    def int_(self, lo=-6, hi=9):
        return self.r.randint(lo, hi)

    landmarks = True        # may values be large

    def val(self, inty=True):
        """an outcome: normalised [num, den]"""
        if self.landmarks and self.p(0.03):
            return [self.ch([1, 1, -1]) * self.ch(LANDMARKS), 1]
        if inty or self.p(0.7):
            return [self.ch([0, 1, 2, 3, 4, 5, 6, -1, -2, -3, 7, 10, 100]) if self.p(0.8) else self.int_(-40, 60), 1]
        d = self.ch([2, 4, 8])
        m = self.r.randint(-20, 20) * 2 + 1
        return [m, d]

    def weight(self, big=False):
        c = self.r.random()
        if big and c < 0.2:
            return self.r.randint(1, 10**self.r.randint(3, 14))
        if c < 0.6:
            return self.r.randint(1, 4)
        if c < 0.75:
            return 0
        return self.ch([2, 4, 6, 6, 12, 3, 9, 10, 7, 100])

    def num(self, inty=True, fl=0.0):
        if self.p(0.02):
            return {'op': 'n', 'v': [self.r.randint(0, 1), 1], 'bool': 1}
        e = {'op': 'n', 'v': self.val(inty)}
        if fl and self.p(fl):
            e['fl'] = 1
        return e

    def rv(self, size=5, inty=True, zero_ok=True, big=False):
        k = self.r.randint(1, size)
        vs = [self.val(inty) for _ in range(k)]
        ws = [self.weight(big) for _ in range(k)]
        if not zero_ok:
            ws = [w or 1 for w in ws]
        if not any(ws):
            ws[self.r.randrange(k)] = self.r.randint(1, 5)
        return {'op': 'rv', 'v': vs, 'W': ws}

    def wide(self, lo=40, hi=130, inty=True, big=False):
        """a die with many outcomes"""
        k = self.r.randint(lo, hi)
        vs = self.r.sample(range(-k, 3 * k), k)
        c = self.r.random()
        ws = [self.r.randint(1, 9) if c < 0.5 else self.r.randint(0, 2) if c < 0.75 else 1 for _ in vs]
        if big and self.p(0.4):
            f = self.ch([2, 6, 10**5])
            ws = [w * f for w in ws]
        if self.p(0.4):     # all but one weight share a factor
            f = self.ch([2, 3, 10])
            ws = [w * f for w in ws]
            ws[self.r.randrange(k)] += 1
        if not any(ws):
            ws[0] = 1
        if not inty:
            vs = [[v, 1] if v % 2 == 0 else [v, 2] for v in vs]
        else:
            vs = [[v, 1] for v in vs]
        return {'op': 'rv', 'v': vs, 'W': ws}

    def small_roll(self):
        return {'op': 'roll', 'a': [n(self.r.randint(1, 3)), n(self.ch([2, 3, 4, 6, -2, -3]))]}

    def seq(self, depth=1, inty=True, dice=True, maxlen=5):
        k = self.r.randint(0, maxlen)
        a = []
        for _ in range(k):
            c = self.r.random()
            if depth > 0 and c < 0.12:
                a.append(self.seq(depth - 1, inty, dice, 3))
            elif depth > 0 and c < 0.2:
                a.append(self.lst(depth - 1, inty, dice, 3))
            elif c < 0.28:
                a.append(self.range_())
            elif dice and c < 0.36:
                a.append(self.rv(4, inty))
            elif dice and c < 0.40:
                a.append({'op': 'blank'})
            else:
                a.append(self.num(inty))
        return {'op': 'seq', 'a': a, 'c': self.ch([0, 1, 2, 3])}

    def lst(self, depth=0, inty=True, dice=False, maxlen=4):
        s = self.seq(depth, inty, dice, maxlen)
        r = {'op': 'list', 'a': s['a']}
        if self.p(0.3):
            r['tup'] = 1
        return r

    def range_(self):
        lo = self.r.randint(-4, 5)
        r = {'op': 'range', 'lo': lo, 'hi': lo + self.r.randint(-1, 4)}
        if self.p(0.5):
            r['my'] = 1
        return r

    # ---- dice-valued trees; inty: all outcomes are Python ints ----
    def die(self, depth=2, inty=True, size=5):
        c = self.r.random()
        if depth <= 0 or c < 0.3:
            return self.rv(size, inty) if self.p(0.6) else self.small_roll()
        if c < 0.62:
            op = self.ch(['add', 'sub', 'mul', 'floordiv', 'mod'] + CMP + BOOL + ([] if inty else ['truediv', 'pow']))
            a, b = self.die(depth - 1, inty, 4), self.other(depth - 1, inty)
            if op == 'pow':
                b = n(self.r.randint(0, 3))
            elif self.p(0.5):
                a, b = b, a
            return {'op': op, 'a': [a, b]}
        if c < 0.72:
            op = self.ch(['neg', 'pos', 'abs', 'floor', 'ceil', 'trunc', 'not'])
            return {'op': op, 'a': [self.die(depth - 1, inty, size)]}
        if c < 0.80:
            return {'op': 'roll', 'a': [n(self.r.randint(-2, 3)), self.die(depth - 1, inty, 4)]}
        if c < 0.86:
            return {'op': 'fromseq', 'a': [self.seq(1, inty)]}
        if c < 0.92:
            return self.mix(depth - 1, inty)
        if c < 0.96:
            return {'op': 'filter', 'a': [self.die(depth - 1, inty, size), self.ch([self.num(inty), self.seq(0, inty)])]}
        return {'op': 'at', 'a': [self.ch([n(self.r.randint(0, 4)), {'op': 'seq', 'c': 0, 'a': [n(self.r.randint(-1, 4)) for _ in range(self.r.randint(2, 3))]}]), self.small_roll()]}

    def mix(self, depth=0, inty=True):
        k = self.r.randint(1, 4)
        a = [self.ch([self.num(inty), self.die(depth, inty, 4), self.die(depth, inty, 4), {'op': 'blank'}, {'op': 'none'}, self.rv(4, inty)]) for _ in range(k)]
        e = {'op': 'mix', 'a': a}
        if self.p(0.75):
            e['W'] = [self.weight() for _ in range(k)]
            if not any(e['W']):
                e['W'][0] = 3
            live = [w for w, y in zip(e['W'], a) if y['op'] not in ('blank', 'none')]
            if live and not any(live):     # nothing with positive weight left: not specified, avoid
                e['W'] = [w + 1 for w in e['W']]
        return e

    def other(self, depth=1, inty=True):
        """an operand next to a die"""
        c = self.r.random()
        if c < 0.4:
            return self.num(inty, 0.15)
        if c < 0.6:
            return self.die(depth, inty, 4)
        if c < 0.8:
            return self.seq(1, inty)
        if c < 0.9:
            return self.lst(0, inty)
        return self.range_()

    def settings(self, q=0.5):
        """a few settings calls that change how dice are built"""
        out = []
        if self.p(q):
            if self.p(0.6):
                out.append(sett('RV_TRUNC', 'bool', True) if self.p(0.6) else sett('RV_TRUNC', 'str', self.ch(TRUE_WORDS)))
            if self.p(0.6):
                out.append(sett('RV_IGNORE_ZERO_PROBS', 'bool', True) if self.p(0.6) else sett('RV_IGNORE_ZERO_PROBS', 'str', self.ch(TRUE_WORDS)))
            if self.p(0.5):
                out.append(sett('position order', 'str', 'lowest first'))
        return out


def many(prop, seed, count, f):
    out = []
    for i in range(count):
        rng = random.Random(f'{prop}/{seed}/{i}')
        out.append({'id': f'{prop}-{seed}-{i}', 'ev': f(G(rng))})
    return out


# ---------------------------------------------------------------- C01
def c01(g):
    evs = g.settings(0.6)
    for _ in range(5):
        e = g.rv(7, inty=g.p(0.5), big=True) if not g.p(0.04) else g.wide(inty=g.p(0.7), big=True)
        k = len(e['v'])
        if g.p(0.5) and k > 1:      # duplicates
            i, j = g.r.randrange(k), g.r.randrange(k)
            e['v'][i] = list(e['v'][j])
        if g.p(0.2):
            e['v'], e['W'] = [], []
        elif g.p(0.12):
            e['W'] = e['W'] + [g.weight()] if g.p(0.5) else e['W'][:-1]
        elif g.p(0.1):
            e['W'][g.r.randrange(k)] = -g.r.randint(1, 3)
        elif g.p(0.08):
            e['W'][g.r.randrange(k)] = [2 * g.r.randint(0, 4) + g.r.randint(0, 1), 2]      # a float weight, perhaps a whole one
        elif g.p(0.3):
            e['W'] = [w * g.ch([2, 3, 6, 10**6]) for w in e['W']]
        if not e['W'] or all(w == 0 for w in e['W']):
            e['W'] = [1] * len(e['v'])
        k = len(e['v'])
        e['fl'] = [1 if g.p(0.2) else 0 for _ in range(k)]
        e['bl'] = [1 if v in ([0, 1], [1, 1]) and g.p(0.3) else 0 for v in e['v']]
        if g.p(0.3):
            e['tr'] = g.ch([1, 2])
        if g.p(0.2):
            e['gen'] = 1
        evs.append(ev(e, strict=1))
    if g.p(0.5):        # are these the same die?
        a = g.ch([g.rv(4), g.rv(3, False), g.small_roll(), g.seq(0, True, True, 3), g.num(), {'op': 'blank'}])
        b = copy.deepcopy(a)
        if g.p(0.4) and b['op'] == 'rv':
            b['v'], b['W'] = b['v'][::-1] + b['v'][:1], [3 * w for w in b['W'][::-1]] + [0]
            if g.p(0.4):
                b['W'][g.r.randrange(len(b['W']))] += 1
        elif g.p(0.3):
            b = g.ch([g.rv(2), g.num(), g.seq(0, True, True, 2), g.lst(0, True, True, 2), {'op': 'blank'}, {'op': 'fromseq', 'a': [b]} if b['op'] in ('n', 'seq') else g.rv(2)])
        evs.append(ev({'op': 'samedie', 'a': [a, b]}))
    evs.append(ev({'op': 'const', 'v': g.val(False)}, strict=1))
    evs.append(ev({'op': 'fromseq', 'a': [g.seq(1, g.p(0.5))]}, strict=1))
    return evs


# ---------------------------------------------------------------- C02
def same(e):
    """both operands are one and the same object"""
    import copy
    d = e['a'][0] if e['a'][0]['op'] not in ('n', 'list', 'range') else e['a'][1]
    return {**e, 'a': [d, copy.deepcopy(d)], 'same': 1} if d['op'] not in ('n', 'list', 'range') else e


def c02(g):
    evs = g.settings(0.25)
    inty = g.p(0.5)
    for _ in range(6):
        c = g.r.random()
        if c < 0.55:
            op = g.ch(ARITH + CMP + BOOL)
            a, b = g.die(g.ch([0, 0, 1]), inty and op != 'truediv'), g.other(0, inty)
            if op == 'pow':     # small exponents only
                few = {'op': 'rv', 'v': [[i, 1] for i in range(g.r.randint(-1, 1), g.r.randint(2, 4))]}
                few['W'] = [g.r.randint(1, 3) for _ in few['v']]
                a, b = g.ch([(a, n(g.r.randint(-2, 4))), (a, few), (g.num(inty), few), (g.rv(4, inty), few), (g.seq(0, inty), few)])
            elif g.p(0.5):
                a, b = b, a
            e = {'op': op, 'a': [a, b]}
            if op != 'pow' and g.p(0.04):
                e['a'] = [g.wide(20, 60), g.ch([n(g.int_(1, 9)), {'op': 'roll', 'a': [n(6)]}])]
            elif op != 'pow' and g.p(0.12):
                e = same(e)
            evs.append(ev(e))
        elif c < 0.75:
            op = g.ch(['neg', 'pos', 'abs', 'floor', 'ceil', 'trunc', 'not', 'bool', 'round'])
            d = g.die(1, inty)
            if op == 'not' and g.p(0.4):
                d = {'op': 'rv', 'v': [[0, 1]] * g.r.randint(1, 2), 'W': [1, 2]}
                d['W'] = d['W'][:len(d['v'])]
            e = {'op': op, 'a': [d]}
            if op == 'round' and g.p(0.6):
                e['a'].append(n(g.r.randint(-2, 2)))
            evs.append(ev(e))
        else:
            evs.append(ev(g.die(2, inty) if g.p(0.7) else neutral(g, g.small_roll())))
    return evs


# ---------------------------------------------------------------- C03
def idx(g):
    a = [n(g.r.randint(-2, 7)) for _ in range(g.r.randint(0, 4))]
    return {'op': 'list', 'a': a, **({'tup': 1} if g.p(0.3) else {})} if g.p(0.2) else {'op': 'seq', 'c': g.ch([0, 1, 2, 3]), 'a': a}


def c03(g):
    evs = g.settings(0.15)
    for _ in range(7):
        c = g.r.random()
        inty = g.p(0.7)
        s = g.seq(2, inty) if not g.p(0.04) else g.seq(1, inty, True, 30)
        if c < 0.15:
            evs.append(ev(s))
        elif c < 0.4:
            op = g.ch(ARITH[:6] + BOOL)
            o = g.ch([g.num(inty, 0.15), g.seq(1, inty), g.seq(1, inty), g.die(0, inty)])
            a, b = (s, o) if g.p(0.5) else (o, s)
            e = {'op': op, 'a': [a, b]}
            evs.append(ev(same(e) if g.p(0.08) else e))
        elif c < 0.75:
            op = g.ch(CMP)
            o = g.ch([g.num(inty), g.num(inty), g.seq(1, inty), g.seq(1, inty), g.die(0, inty), g.lst(0, inty)])
            if g.p(0.35):       # near-equal sequences: where padding and position matter
                base = [g.val(inty) for _ in range(g.r.randint(0, 4))]
                other = [list(v) for v in base]
                if other and g.p(0.5):
                    other[g.r.randrange(len(other))][0] += g.ch([-1, 1]) * g.ch([8, 16])
                if g.p(0.5):
                    other = other[:g.r.randint(0, len(other))]
                mk = lambda q: {'op': 'seq', 'c': g.ch([0, 1, 2, 3]), 'a': [{'op': 'n', 'v': v} for v in q]}  # noqa
                norm = lambda v: v if v[1] == 1 or v[0] % 2 else [v[0] // 2, v[1] // 2]  # noqa
                other = [norm(v) for v in other]
                s, o = mk(base), mk(other)
                if any(v[1] not in (1,) and v[0] % 2 == 0 for v in other):
                    s, o = g.seq(1, True), g.seq(1, True)
            a, b = (s, o) if g.p(0.5) else (o, s)
            e = {'op': op, 'a': [a, b]}
            evs.append(ev(same(e) if g.p(0.1) else e))
        elif c < 0.85:
            evs.append(ev({'op': 'at', 'a': [n(g.r.randint(-2, 7)), s]}))
        elif c < 0.92:
            evs.append(ev({'op': 'at', 'a': [idx(g), s if g.p(0.8) else g.lst(1, inty)]}))
        elif c < 0.96:
            evs.append(ev({'op': 'at', 'a': [idx(g), n(g.ch([0, 7, 40, 305, 98765, g.r.randint(0, 10**9)]))]}))
        elif c < 0.97:
            t = [g.seq(1, inty, False, 3), g.num(inty), g.lst(1, inty, False, 3), g.range_()]
            a = g.ch(t)
            b = g.ch(t) if g.p(0.5) else {'op': g.ch(['seq', 'list']), 'c': g.ch([0, 1, 2, 3]), 'a': [copy.deepcopy(a)]} if g.p(0.8) else g.rv(3)
            evs.append(ev({'op': 'sameseq', 'a': g.ch([[a, b], [b, a]])}))
        else:
            evs.append(ev({'op': g.ch(['len', 'not']), 'a': [s]}))
    return evs


# ---------------------------------------------------------------- C04
def c04_big(g):
    """many dice: sums of up to hundreds"""
    c = g.r.random()
    k = g.ch([7, 8, 9, 10, 15, 16, 17, 20, 31, 33, 40])
    if c < 0.5:
        d = n(g.ch([2, 2, 3, -2]))
    else:
        d = {'op': 'rv', 'v': [[0, 1], [g.ch([1, 2, 3, -1]), 1]], 'W': [g.r.randint(1, 2), 1]}
    cnt = n(k) if g.p(0.7) else n(-k)
    return [ev({'op': 'roll', 'a': [cnt, d]}), ev({'op': 'roll', 'a': [n(g.r.randint(2, 13)), d]})]


def c04_arg(g):
    c = g.r.random()
    if c < 0.45:
        return {**n(g.r.randint(-4, 6)), **({'fl': 1} if g.p(0.15) else {})}
    if c < 0.55:
        return {'op': 'n', 'v': [2 * g.r.randint(-4, 3) + 1, g.ch([2, 4])]}
    if c < 0.75:
        return g.seq(1, True, maxlen=3)
    if c < 0.8:
        return g.lst(0, True, True, 3)
    return {'op': 'rv', 'v': [[v, 1] for v in g.r.sample([-2, -1, 0, 1, 2, 3, 4], g.r.randint(1, 4))], 'W': [1, 2, 0, 3]}


def neutral(g, e):
    """an operator that may leave every outcome as it is"""
    op, v = g.ch([('add', 0), ('sub', 0), ('mul', 1), ('floordiv', 1), ('pow', 1), ('add', 0), ('pos', None), ('trunc', None), ('abs', None), ('filter', 99), ('mix', None), ('round', None), ('or', 0)])
    if op == 'mix':
        return {'op': 'mix', 'a': [e]}
    if op == 'filter':
        return {'op': 'filter', 'a': [e, n(99)]}
    if v is None:
        return {'op': op, 'a': [e]}
    o = g.ch([n(v), n(v), {'op': 'seq', 'c': 0, 'a': [n(v)]}, {'op': 'const', 'v': [v, 1]}]) if v or g.p(0.7) else {'op': 'seq', 'c': 0, 'a': []}
    return {'op': op, 'a': [o, e] if op in ('add', 'mul') and g.p(0.4) else [e, o]}


def c04(g):
    evs = g.settings(0.2)
    for _ in range(4):
        cnt = c04_arg(g)
        if cnt['op'] == 'rv':
            cnt['W'] = cnt['W'][:len(cnt['v'])]
            g.r.shuffle(cnt['W'])
            if not any(cnt['W']):
                cnt['W'][0] = 1
        if cnt['op'] in ('seq', 'list'):    # keep the count small
            cnt['a'] = [n(g.r.randint(-2, 3)) for _ in range(g.r.randint(0, 3))]
        c = g.r.random()
        d = (n(g.ch([0, 1, 2, 3, 4, 5, 6, -1, -3, 10])) if c < 0.35 else
             {'op': 'n', 'v': [2 * g.r.randint(-3, 5) + 1, 2]} if c < 0.42 else
             g.seq(1, g.p(0.7), maxlen=4) if c < 0.56 else
             g.lst(1, g.p(0.7), True, 4) if c < 0.6 else
             g.range_() if c < 0.63 else
             g.rv(4, g.p(0.7)) if c < 0.8 else
             {'op': 'blank'} if c < 0.84 else
             {'op': 'roll', 'a': [n(g.r.randint(1, 2)), n(g.ch([2, 3, 4]))]})
        c = g.r.random()
        if c > 0.36 and g.p(0.1):        # numbers the host language keeps as fractions
            for e in (cnt, d):
                if e['op'] == 'n' and e['v'][1] == 1 and g.p(0.7):
                    e['fl'] = 1
        if c < 0.1:
            evs.append(ev({'op': 'roll', 'a': [d]}))
        elif c < 0.2:
            a, k = g.r.randint(-3, 5), g.ch([1, 2, 3, 4, 6, -2, 0])
            s = g.ch([f'{a}d{k}', f'{a}d{k}'])
            if g.p(0.2):
                a, s = 1, f'd{k}'
            evs.append(ev({'op': 'rollstr', 's': s, 'n': a, 'k': k}))
        elif c < 0.3:
            evs.append(ev({'op': 'roll', 'D': 1, 'a': [cnt, d] if g.p(0.7) and cnt['op'] in ('n', 'seq') else [d]}))
        elif c < 0.36:
            evs.append(ev({'op': 'roll', 'a': [g.ch([{'op': 'blank'}, {'op': 'roll', 'a': [{'op': 'blank'}, n(3)]}]), d]}))
        else:
            evs.append(ev({'op': 'roll', 'a': [cnt, d]}))
        if g.p(0.15):       # a result of an operator, neutral or not, is one die
            evs.append(ev(neutral(g, {'op': 'roll', 'a': [n(g.r.randint(1, 3)), g.ch([n(3), g.rv(3)])]})))
    evs += c04_big(g)
    return evs


# ---------------------------------------------------------------- C05
def c05(g):
    evs = g.settings(0.2)
    for _ in range(5):
        e = g.mix(1, g.p(0.6))
        if g.p(0.3):
            e['W'] = [g.ch([1, 2, 3, 4, 6, 12, 30]) * g.ch([1, 1, 10**6]) for _ in e['a']]
        evs.append(ev(e))
    if g.p(0.5):        # many components
        k = g.r.randint(6, 14)
        part = lambda: g.ch([n(g.int_()), {'op': 'roll', 'a': [n(g.ch([2, 3, 4, 6, 12, 5, 7]))]}, {'op': 'roll', 'a': [n(g.ch([6, 12]))]}, g.rv(3)])  # noqa
        e = {'op': 'mix', 'a': [part() for _ in range(k)]}
        if g.p(0.3):
            e['a'][:-1] = [{'op': 'roll', 'a': [n(g.ch([12, 6]))]} for _ in range(k - 1)]
        if g.p(0.5):
            e['W'] = [g.r.randint(1, 3) for _ in range(k)]
        evs.append(ev(e))
    if g.p(0.3):
        evs.append(ev({'op': 'mix', 'a': [g.ch([{'op': 'blank'}, {'op': 'none'}]) for _ in range(g.r.randint(0, 3))]}))
    return evs


# ---------------------------------------------------------------- C06
def pool(g, big=False):
    c = g.r.random()
    if big:
        k = g.ch([8, 12, 20, 30])
        d = g.ch([n(2), n(3), {'op': 'rv', 'v': [[0, 1], [1, 1], [4, 1]], 'W': [g.r.randint(0, 2), 1, g.r.randint(1, 2)]}])
        return k, {'op': 'roll', 'a': [n(k), d]}
    k = g.r.randint(1, 5)
    if c < 0.3:
        return k, {'op': 'roll', 'a': [n(k), n(g.ch([2, 3, 4, 6, -2]))]}
    if c < 0.85:
        return k, {'op': 'roll', 'a': [n(k), g.rv(4, True)]}
    return k, {'op': 'roll', 'a': [n(k), g.seq(0, True, maxlen=4)]}


def c06(g):
    evs = g.settings(0.4)
    for _ in range(5):
        big = g.p(0.2)
        k, e = pool(g, big)
        if g.p(0.1):
            evs.append(sett('position order', 'str', g.ch(['highest first', 'lowest first'])))
        if g.p(0.08):
            e = neutral(g, e)
        c = g.r.random()
        if c < 0.5 or big:
            evs.append(ev({'op': 'at', 'a': [n(g.r.randint(-1, k + 2)), e]}))
        elif c < 0.9:
            m = g.r.randint(2, 4)
            ix = {'op': g.ch(['seq', 'seq', 'list']), 'c': g.ch([0, 1, 2, 3]), 'a': [n(g.r.randint(-1, k + 2)) for _ in range(m)]}
            evs.append(ev({'op': 'at', 'a': [ix, e]}))
        elif c < 0.94:
            evs.append(ev({'op': 'at', 'a': [g.rv(3), e]}))
        elif c < 0.97:
            evs.append(ev({'op': 'at', 'a': [{'op': 'n', 'v': [3, 2]}, e]}))
        else:
            evs.append(ev({'op': 'at', 'a': [{'op': 'range', 'lo': 1, 'hi': g.r.randint(1, k)}, e]}))
    return evs


# ---------------------------------------------------------------- functions
def param(i):
    return {'op': 'p', 'i': i}


def seqn(g, ints, **kw):
    return {'op': 'seq', 'c': g.ch([0, 1, 2, 3]), 'a': [n(v) for v in ints]}


class Body:
    """function bodies over typed parameters (types as received after casting: N number, S sequence, D die, x unknown)"""
    def __init__(self, g, tys, nested=1, selfcall=False):
        self.g, self.tys, self.nested, self.selfcall = g, tys, nested, selfcall

    def of(self, t):
        return [i + 1 for i, y in enumerate(self.tys) if y == t]

    def num(self, depth=2):
        g = self.g
        c = g.r.random()
        N, S_, D = self.of('N'), self.of('S'), self.of('D')
        if depth <= 0 or c < 0.2:
            opts = [n(g.int_(-3, 6))] + [param(i) for i in N] * 3 + [{'op': 'at', 'a': [n(g.r.randint(0, 3)), param(i)]} for i in S_] * 2 + [{'op': 'len', 'a': [param(i)]} for i in S_ + D]
            return g.ch(opts)
        if c < 0.5:
            return {'op': g.ch(['add', 'sub', 'mul']), 'a': [self.num(depth - 1), self.num(depth - 1)]}
        if c < 0.65:
            return {'op': g.ch(CMP), 'a': [self.num(depth - 1), self.num(depth - 1)]}
        if c < 0.8 and S_:
            i = g.ch(S_)
            return g.ch([{'op': g.ch(CMP), 'a': [param(i), self.num(0)]}, {'op': 'at', 'a': [seqn(g, [g.r.randint(0, 4) for _ in range(g.r.randint(0, 3))]), param(i)]},
                         {'op': g.ch(['add', 'sub', 'mul']), 'a': [param(i), self.num(0)]}])
        if c < 0.9:
            return {'op': 'if', 'c': self.num(depth - 1), 'a': [self.num(depth - 1), self.num(depth - 1)]}
        return {'op': 'neg', 'a': [self.num(depth - 1)]}

    def die(self, depth=1):
        g = self.g
        D = self.of('D')
        base = param(g.ch(D)) if D and g.p(0.7) else g.rv(3)
        c = g.r.random()
        if c < 0.3:
            return base
        if c < 0.6:
            return {'op': g.ch(['add', 'sub', 'mul'] + CMP), 'a': [base, self.num(1)]}
        if c < 0.75:
            return {'op': 'roll', 'a': [n(g.r.randint(0, 2)), base]}
        if c < 0.85:
            return {'op': 'roll', 'a': [{'op': 'abs', 'a': [{'op': 'mod', 'a': [self.num(1), n(3)]}]}, base]}
        return {'op': 'add', 'a': [base, g.rv(3)]}

    def seq(self):
        g = self.g
        S_ = self.of('S')
        a = [self.num(1) for _ in range(g.r.randint(0, 3))] + [param(i) for i in S_ if g.p(0.5)]
        g.r.shuffle(a)
        return {'op': g.ch(['seq', 'seq', 'list']) if g.hostlists else 'seq', 'c': g.ch([0, 1, 2, 3]), 'a': a}

    def result(self, depth=1):
        g = self.g
        c = g.r.random()
        if c < 0.45:
            return self.num(2)
        if c < 0.6:
            return self.die()
        if c < 0.72:
            return self.seq()
        if c < 0.77:
            return {'op': 'none'}
        if c < 0.81:
            return {'op': 'blank'}
        if c < 0.92 and depth > 0:
            return {'op': 'if', 'c': self.num(1), 'a': [self.result(depth - 1), self.result(depth - 1)]}
        if self.nested > 0:
            f = function(g, nested=self.nested - 1)
            return {'op': 'call', 'fn': f, 'a': [self.arg(t) for t in f['ty']]}
        return self.num(1)

    def arg(self, t):
        """argument of a nested call: any parameter or small value"""
        g = self.g
        opts = [param(i + 1) for i in range(len(self.tys))] * 2 + [n(g.int_(-2, 4)), g.rv(3)]
        return g.ch(opts)


def function(g, nested=1, k=None, dec=None, types=None):
    k = k if k is not None else g.ch([1, 1, 2, 2, 3])
    tys = types or [g.ch(['N', 'N', 'S', 'S', 'D', 'D', '-', 'o']) for _ in range(k)]
    b = Body(g, tys, nested)
    fn = {'ty': tys, 'dec': dec or g.ch(['cast', 'cast', 'type']), 'body': b.result()}
    return fn


def argument(g, t, budget):
    """budget limits the number of splits"""
    c = g.r.random()
    if c < 0.3:
        return g.num(g.p(0.7))
    if c < 0.45:
        return g.seq(1, True, maxlen=3)
    if c < 0.5:
        return g.ch([g.lst(0, True, False, 3), g.range_()])
    if c < 0.56:
        return g.ch([{'op': 'blank'}, {'op': 'roll', 'a': [{'op': 'blank'}, n(2)]}])
    if c < 0.75 or budget < 2:
        return g.rv(3 if budget < 3 else 4)
    return {'op': 'roll', 'a': [n(g.r.randint(2, 3)), g.ch([n(2), n(3), g.rv(3)])]}


def call(g, fn, budget=3, args=None):
    args = args or [argument(g, t, budget) for t in fn['ty']]
    e = {'op': 'call', 'fn': fn, 'a': args}
    k = len(args)
    if g.p(0.35):
        e['kw'] = g.r.randint(1, k)
        if g.p(0.5):
            e['kwrev'] = 1
        if g.p(0.4):
            fn['kwo'] = g.r.randint(1, e['kw'])
    return e


def c07(g):
    g.hostlists = True
    evs = g.settings(0.1)
    for _ in range(3):
        fn = function(g)
        e = call(g, fn, 3 if len(fn['ty']) < 3 else 1)
        if g.p(0.5):
            fn['rec'] = 1
            evs.append(ev(e, calls=1))
        else:
            evs.append(ev(e))
    return evs


# ---------------------------------------------------------------- C08
def c08(g):
    evs = g.settings(0.15)
    for _ in range(3):
        k = g.ch([1, 2, 2, 3, 3, 4, 5])
        d = g.ch([n(g.ch([2, 3, 4])) if k > 3 else n(g.ch([2, 3, 4, 5, -3])), g.rv(3 if k > 3 else 4), g.rv(3)])
        pool_ = {'op': 'roll', 'a': [n(k), d]}
        if g.p(0.1):
            pool_ = g.rv(4)
        tys = ['S'] if g.p(0.6) else g.ch([['S', 'N'], ['N', 'S'], ['S', 'D'], ['S', 'S'], ['S', '-']])
        fn = {'ty': tys, 'dec': g.ch(['cast', 'type']), 'body': None}
        si = tys.index('S') + 1
        b = Body(g, tys, 0)
        # a body that tells rolls apart by their order, not only by their sum
        order = {'op': 'add', 'a': [{'op': 'mul', 'a': [{'op': 'at', 'a': [n(1), param(si)]}, n(g.ch([3, 7]))]}, {'op': 'at', 'a': [n(g.ch([2, 3, k])), param(si)]}]}
        fn['body'] = g.ch([order, order, b.num(2), b.result()])
        args = []
        small = k * (3 if d['op'] == 'n' else 3) <= 9
        for i, t in enumerate(tys):
            args.append(pool_ if i + 1 == si else g.rv(2) if t == 'N' and small else {'op': 'roll', 'a': [n(2), n(2)]} if t == 'S' and small else n(g.int_()))
        fn['rec'] = 1
        e = call(g, fn, 1, args)
        evs.append(ev(e, calls=1))
    return evs


# ---------------------------------------------------------------- C09
def blank(g):
    return g.ch([{'op': 'blank'}, {'op': 'roll', 'a': [n(2), {'op': 'seq', 'a': [], 'c': 0}]}, {'op': 'roll', 'a': [n(g.int_(0, 3)), {'op': 'blank'}]},
                 {'op': 'mix', 'a': [{'op': 'blank'}, {'op': 'none'}]}, {'op': 'mix', 'a': []},
                 {'op': 'call', 'fn': {'ty': ['-'], 'dec': 'cast', 'body': {'op': 'none'}}, 'a': [n(1)]}])


def sblank(g):
    return g.ch([{'op': 'roll', 'a': [blank(g), g.ch([n(3), g.rv(3)])]},
                 {'op': 'call', 'fn': {'ty': ['N'], 'dec': 'cast', 'body': param(1)}, 'a': [{'op': 'blank'}]},
                 {'op': 'call', 'fn': {'ty': ['S', 'N'], 'dec': 'type', 'body': n(3)}, 'a': [n(2), {'op': 'blank'}]},
                 {'op': 'lib', 'f': 'absolute', 'a': [{'op': 'blank'}]}])


def c09(g):
    evs = []
    for _ in range(8):
        c = g.r.random()
        b = blank(g) if g.p(0.5) else sblank(g)
        if c < 0.7:
            o = g.ch([g.num(), g.seq(1, True), g.rv(4), g.small_roll(), blank(g), sblank(g)])
            a = [b, o] if g.p(0.5) else [o, b]
            evs.append(ev({'op': g.ch(ARITH + CMP + BOOL), 'a': a}))
        elif c < 0.85:
            evs.append(ev({'op': g.ch(['neg', 'pos', 'not', 'abs', 'floor', 'ceil', 'trunc', 'len', 'bool', 'round']), 'a': [b]}))
        elif c < 0.9:
            o = g.ch([g.num(), g.rv(3), g.seq(0, True)])
            evs.append(ev({'op': 'at', 'a': g.ch([[b, o], [n(g.r.randint(1, 2)), b]])}))
        elif c < 0.95:
            evs.append(ev({'op': 'mix', 'a': [b, g.rv(3), g.num()], 'W': [g.r.randint(1, 5) for _ in range(3)]}))
        else:
            evs.append(ev({'op': 'call', 'fn': {'ty': [g.ch(['N', 'S', 'D', '-'])], 'dec': g.ch(['cast', 'type']), 'body': g.ch([param(1), n(5)])}, 'a': [b]}))
    return evs


# ---------------------------------------------------------------- C10 (values; the call machine itself is in depth histories)
def c10(g):
    evs = []
    for _ in range(3):
        m = g.ch([1, 1, 2, 3, 4, 5, 6])
        known = g.p(0.85)
        if known:
            evs.append(sett('maximum function depth', 'int', m))
        elif g.p(0.5):
            evs.append(RESET)
        d = g.ch([n(2), n(3), {'op': 'rv', 'v': [[0, 1], [1, 1]], 'W': [2, 1]}])
        die = {'op': 'roll', 'a': [d]}
        # recursion on a die: F(N) = N = top ? N + F(die) : N
        c = g.r.random()
        if c < 0.4 and known and m < 6:
            fn = {'ty': ['N'], 'dec': 'cast', 'body': {'op': 'if', 'c': {'op': g.ch(['ge', 'eq']), 'a': [param(1), n(g.ch([1, 2]))]},
                                                       'a': [{'op': g.ch(['add', 'add', 'sub', 'mul']), 'a': [param(1), {'op': 'self', 'a': [die]}]}, g.ch([param(1), n(0), {'op': 'none'}])]}}
            evs.append(ev({'op': 'call', 'fn': fn, 'a': [g.ch([die, n(2)])]}))
        elif c < 0.6:       # straight recursion counting down
            fn = {'ty': ['N'], 'dec': g.ch(['cast', 'depth']), 'body': {'op': 'if', 'c': {'op': 'gt', 'a': [param(1), n(0)]},
                                                                       'a': [{'op': 'add', 'a': [n(1), {'op': 'self', 'a': [{'op': 'sub', 'a': [param(1), n(1)]}]}]}, g.ch([n(0), {'op': 'none'}])]}}
            evs.append(ev({'op': 'call', 'fn': fn, 'a': [n(g.r.randint(0, 8))]}))
        elif c < 0.8:       # nested distinct functions
            body = g.ch([n(7), param(1), {'op': 'none'}])
            for _ in range(g.r.randint(1, 5)):
                inner = {'ty': ['N'], 'dec': g.ch(['cast', 'cast', 'depth', 'type', 'none']), 'body': body}
                body = {'op': g.ch(['add', 'or']), 'a': [g.rv(2), {'op': 'call', 'fn': inner, 'a': [param(1)]}]}
            evs.append(ev({'op': 'call', 'fn': {'ty': ['N'], 'dec': 'cast', 'body': body}, 'a': [n(1)]}))
        else:               # failing inside
            fn = {'ty': ['N'], 'dec': 'cast', 'body': {'op': 'if', 'c': {'op': 'gt', 'a': [param(1), n(0)]},
                                                       'a': [{'op': 'self', 'a': [{'op': 'sub', 'a': [param(1), n(1)]}]}, {'op': 'raise'}]}}
            evs.append(ev({'op': 'call', 'fn': fn, 'a': [n(g.r.randint(0, 5))]}))
    return evs


# ---------------------------------------------------------------- C11
def c11(g):
    evs = []
    for _ in range(5):
        if g.p(0.2):
            evs.append(sett('position order', 'str', g.ch(['highest first', 'lowest first'])))
        if g.p(0.15):
            evs.append(sett('explode depth', 'int', g.r.randint(1, 4)))
        f = g.ch(['absolute', 'contains', 'count_in', 'reverse', 'sort', 'maximum_of', 'explode', 'highest', 'lowest', 'middle', 'highest', 'lowest', 'middle', 'highest_of', 'lowest_of', 'gwf', g.ch(['reverse_slow', 'sort_slow'])])
        num = lambda: g.ch([g.num(), g.num(False), g.rv(4), g.small_roll(), g.seq(0, True, False, 3)])  # noqa
        sq = lambda: g.ch([g.seq(1, True, True, 4), g.seq(1, False, True, 4), g.num(), g.rv(4), g.small_roll(), g.range_()])  # noqa
        die = lambda: g.ch([g.rv(4), g.rv(4), g.small_roll(), g.seq(0, True, True, 4), g.num()])  # noqa
        e = {'op': 'lib', 'f': f}
        if f == 'absolute':
            e['a'] = [num()]
        elif f == 'contains':
            e['a'] = [sq(), num()]
        elif f == 'count_in':
            e['a'] = [sq(), sq()]
        elif f in ('reverse', 'sort', 'reverse_slow', 'sort_slow'):
            e['a'] = [sq() if g.p(0.7) else g.seq(0, True, False, 8)]
        elif f == 'maximum_of':
            e['a'] = [die()]
        elif f == 'explode':
            e['a'] = [g.ch([g.rv(4), {'op': 'roll', 'a': [n(g.ch([2, 3, 4, 6]))]}, {'op': 'roll', 'a': [n(2), n(3)]}, g.num()])]
            if g.p(0.4):
                e['depth'] = g.r.randint(0, 4)
        elif f in ('highest', 'lowest', 'middle'):
            k, p_ = pool(g)
            e['a'] = [g.ch([n(g.r.randint(-1, k + 1)), n(g.r.randint(1, k)), n(g.r.randint(1, k)), {'op': 'rv', 'v': [[1, 1], [2, 1]], 'W': [1, 2]}]), g.ch([p_, p_, p_, g.seq(0, True, False, 3)])]
        elif f in ('highest_of', 'lowest_of'):
            e['a'] = [num(), num()]
        else:
            e['a'] = [n(g.r.randint(0, 3)), g.ch([n(g.ch([4, 6, 3])), g.rv(4)]), g.ch([n(g.r.randint(0, 3)), n(g.r.randint(0, 3)), g.seq(0, True, False, 3)])]
            if g.p(0.2):
                del e['a'][2]
        evs.append(ev(e))
    return evs


# ---------------------------------------------------------------- C12
PROBES = [
    {'op': 'rv', 'v': [[5, 2], [-3, 2], [1, 1]], 'W': [1, 2, 3]},
    {'op': 'rv', 'v': [[0, 1], [3, 1], [4, 1]], 'W': [0, 2, 0]},
    {'op': 'truediv', 'a': [{'op': 'roll', 'a': [n(4)]}, n(2)]},
    {'op': 'at', 'a': [n(1), {'op': 'roll', 'a': [n(3), n(3)]}]},
    {'op': 'at', 'a': [{'op': 'seq', 'c': 0, 'a': [n(1), n(2)]}, {'op': 'roll', 'a': [n(3), n(3)]}]},
    {'op': 'lib', 'f': 'explode', 'a': [{'op': 'roll', 'a': [n(2)]}]},
    {'op': 'lib', 'f': 'lowest', 'a': [n(2), {'op': 'roll', 'a': [n(3), n(2)]}]},
    {'op': 'call', 'a': [n(12)], 'fn': {'ty': ['N'], 'dec': 'cast', 'body': {'op': 'if', 'c': {'op': 'gt', 'a': [param(1), n(0)]}, 'a': [
        {'op': 'add', 'a': [n(1), {'op': 'self', 'a': [{'op': 'sub', 'a': [param(1), n(1)]}]}]}, n(0)]}}},
]


def copy_(e):
    import copy
    return copy.deepcopy(e)


def settings_call(g):
    c = g.r.random()
    if c < 0.12:
        return dict(RESET)
    if c < 0.3:
        return sett('position order', 'str', g.ch(['highest first', 'lowest first', 'lowest first', 'lowest', 'Highest first', '', 'highest  first']))
    if c < 0.42:
        return g.ch([sett('explode depth', 'int', g.r.randint(-1, 4)), sett('explode depth', 'str', '3'), sett('explode depth', 'other', g.ch(['none', 'float', 'list']))])
    if c < 0.56:
        return g.ch([sett('maximum function depth', 'int', g.r.randint(-1, 6)), sett('maximum function depth', 'int', g.r.randint(1, 6)), sett('maximum function depth', 'str', '3'), sett('maximum function depth', 'other', g.ch(['none', 'float']))])
    if c < 0.85:
        name = g.ch(['RV_TRUNC', 'RV_IGNORE_ZERO_PROBS'])
        return g.ch([sett(name, 'bool', g.p(0.5)), sett(name, 'bool', g.p(0.5)), sett(name, 'str', g.ch(TRUE_WORDS + FALSE_WORDS)), sett(name, 'str', g.ch(['yes', '1', '', 'truee', 'on', ' true'])),
                     sett(name, 'int', g.r.randint(0, 2)), sett(name, 'other', g.ch(['none', 'float', 'list']))])
    if c < 0.92:
        return g.ch([sett('DEFAULT_OUTPUT_WIDTH', 'int', g.r.randint(-2, 60)), sett('DEFAULT_OUTPUT_WIDTH', 'int', g.r.randint(10, 60)), sett('DEFAULT_OUTPUT_WIDTH', 'str', '20'), sett('DEFAULT_OUTPUT_WIDTH', 'other', 'float')])
    if c < 0.96:
        return g.ch([sett('DEFAULT_PRINT_FN', 'fn', g.r.randint(1, 3)), sett('DEFAULT_PRINT_FN', 'str', 'print'), sett('DEFAULT_PRINT_FN', 'int', 3)])
    return sett(g.ch(['explode', 'position  order', 'Position order', '', 'rv_trunc', 'INTERNAL', 'INTERNAL_CURR_DEPTH', 'output width']), g.ch(['int', 'int']), 1)


def c12(g):
    evs = []
    for _ in range(g.r.randint(3, 7)):
        evs.append(settings_call(g))
        for pr in g.r.sample(PROBES, 2 if g.p(0.8) else len(PROBES)):
            evs.append(ev(copy_(pr), strict=1) if pr['op'] == 'rv' else ev(copy_(pr)))
        if g.p(0.5):
            evs.append(out_fact(g, {'op': 'roll', 'a': [n(g.r.randint(1, 2)), n(2)]}, simple=True))
    for pr in PROBES:
        evs.append(ev(copy_(pr)))
    return evs


# ---------------------------------------------------------------- statistics and output
def stat_die(g, big=None):
    if g.p(0.12):       # large outcomes close together
        b = g.ch([-1, 1, 1]) * g.ch([5000, 10**5 + 1, 10**6, 3999000] if big is None else big)
        k = g.r.randint(1, 5)
        d = g.ch([1, 1, 1, 2]) if abs(b) <= 10**5 + 1 else 1
        vs = [[b * d + g.r.randint(0, 6), 1] if d == 1 else [b * d + 2 * g.r.randint(0, 4) + 1, d] for _ in range(k)]
        if g.p(0.2):
            vs.append([0, 1])
        return {'op': 'rv', 'v': vs, 'W': [g.ch([1, 1, 2, 3, 10]) for _ in vs]}
    g.landmarks, keep = False, g.landmarks
    try:
        return stat_die_(g)
    finally:
        g.landmarks = keep


def huge_die(g):
    """weights of any size, beyond what a float can hold, in (nearly) the proportions of small ones"""
    k = g.r.randint(1, 5)
    g.landmarks, keep = False, g.landmarks
    vs = [list(v) for v in sorted({tuple(g.val(g.p(0.6))) for _ in range(k)})]
    g.landmarks = keep
    g.r.shuffle(vs)
    ws = [g.ch([0, 1, 1, 2, 3, 7, 10, 25]) for _ in vs]
    if not any(ws):
        ws[0] = 1
    unit = g.ch([10**40, 2**1022, 2**1024, 10**309, 10**320])
    W = [w * unit + g.r.randint(0, 9) * (g.p(0.8) and (w > 0 or g.p(0.5))) for w in ws]
    return {'op': 'rv', 'v': vs, 'W': W, 'X': 1}, ws


def stat_die_(g):
    """small exact totals (below the modulus) so that the specification's weights are the exact ones"""
    c = g.r.random()
    if c < 0.75:
        k = g.r.randint(1, 7)
        vs = [g.val(g.p(0.6)) for _ in range(k)]
        ws = [g.ch([0, 1, 1, 2, 3, 4, 6, 10, 25, 60]) for _ in range(k)]
        if not any(ws):
            ws[0] = 1
        return {'op': 'rv', 'v': vs, 'W': ws}
    if c < 0.9:
        return {'op': 'roll', 'a': [n(g.r.randint(1, 3)), n(g.ch([2, 3, 4, 6, 8, -3]))]}
    return {'op': 'add', 'a': [{'op': 'roll', 'a': [n(4)]}, {'op': 'roll', 'a': [n(6)]}]}


def fact(f, e, **kw):
    return {'k': 'fact', 'f': f, 'e': e, **kw}


def out_fact(g, e, simple=False):
    r = fact('output', e)
    if g.p(0.5):
        r['name'] = g.ch(['', 'x', 'my die', 'A B'])
    if not simple:
        if g.p(0.4):
            r['bw'] = g.ch([1, 3, 8, 20, 50, 100])
        if g.p(0.15):
            r['nopdf'] = 1
        if g.p(0.3):
            r['cut'] = g.ch([1, 5, 10, 25, 50])      # percent
    r['way'] = g.ch(['ret', 'ret', 'fn', 'def'])
    r['via'] = g.ch(['f', 'f', 'm'])
    if simple is False and g.p(0.1) and 'name' not in r:
        for k in ('bw', 'nopdf', 'cut'):
            r.pop(k, None)
        r['way'], r['via'] = 'ret', 'repr'
    return r


def c15(g):
    evs = []
    if g.p(0.2):
        evs.append(sett('RV_IGNORE_ZERO_PROBS', 'bool', True))
    for _ in range(3):
        evs.append(ev(stat_die(g, [5000, 10**5, 10**7, 10**8, 4 * 10**8, 10**9 - 20])))
        i = sum(1 for e in evs if e['k'] == 'ev')
        evs += [fact('mean', x(i)), fact('std', x(i)), fact('pairs', x(i)), fact('cdf', x(i))]
        evs.append(fact('pairs', x(i), cut=g.r.randint(1, 4095)))
        evs.append(fact('pairs', x(i), cut=g.ch([2048, 1024, 512, 1365, 4095, 1])))
        if g.p(0.1):
            evs.append(fact('pairs', x(i), cut=g.ch([4096, 5000, -1, -4096])))
        if g.p(0.03):
            e = huge_die(g)[0]
            evs += [fact('mean', copy_(e)), fact('std', copy_(e)), fact('pairs', copy_(e))]
        evs.append(ev({'op': 'filter', 'a': [x(i), g.ch([g.num(), g.seq(1, True), g.rv(3), g.lst(0, True)])]}))
    return evs


def c16(g):
    evs = []
    for _ in range(2):
        if g.p(0.3):
            evs.append(g.ch([sett('DEFAULT_OUTPUT_WIDTH', 'int', g.r.randint(1, 90)), sett('DEFAULT_PRINT_FN', 'fn', g.r.randint(1, 3)), dict(RESET)]))
        c = g.r.random()
        e = (stat_die(g) if c < 0.7 else g.num() if c < 0.77 else g.seq(1, g.p(0.7), True, 4) if c < 0.85 else {'op': 'seq', 'a': [], 'c': 0} if c < 0.9 else
             g.ch([{'op': 'blank'}, {'op': 'none'}, {'op': 'roll', 'a': [{'op': 'blank'}, n(2)]}]))
        huge = g.p(0.025)
        if huge:
            e = huge_die(g)[0]
        r = out_fact(g, e)
        if huge:
            r.pop('cut', None)
        if e['op'] not in ('rv', 'roll', 'add', 'blank') and r['via'] != 'f':
            r['via'] = 'f'
        evs.append(r)
    return evs


def c17(g):
    evs = []
    for _ in range(2):
        e = g.ch([stat_die(g), stat_die(g), {'op': 'seq', 'c': 0, 'a': [n(g.int_()) for _ in range(g.r.randint(1, 4))]}, g.num(), {'op': 'roll', 'a': [n(g.ch([2, 6, 20]))]}])
        if g.p(0.1):
            e, share = huge_die(g)
            evs += [fact('sample', copy_(e), count=m, share=share, rseed=g.r.randint(0, 10**6)) for m in (3, 2000)]
            evs.append(fact('sample', e, count=-1, single=2, share=share, rseed=g.r.randint(0, 10**6)))
            continue
        tot = sum(e['W']) // math.gcd(*e['W']) if e['op'] == 'rv' and any(e['W']) else len(e['a']) if e['op'] == 'seq' else e['a'][0]['v'][0] if e['op'] == 'roll' and len(e['a']) == 1 else 0
        if 2 <= tot <= 100:         # as many as the total weight
            evs.append(fact('sample', copy_(e), count=tot * g.ch([1, 1, 1, 2]), reps=60, rseed=g.r.randint(0, 10**6)))
        evs.append(fact('sample', e, count=g.ch([0, 1, 2, 3, 17]), rseed=g.r.randint(0, 10**6)))
        evs.append(fact('sample', copy_(e), count=2000, rseed=g.r.randint(0, 10**6)))
        if g.p(0.5):
            evs.append(fact('sample', copy_(e), count=-1, single=g.ch([1, 5]), rseed=g.r.randint(0, 10**6)))
    return evs


def c24_tree(g, depth=2):
    c = g.r.random()
    if depth == 0 or c < 0.15:
        return g.ch([n(g.r.randint(-4, 7)), n(g.r.randint(1, 7)), g.rv(3), g.seq(0, True, False, 3), {'op': 'range', 'lo': 1, 'hi': 3}])
    if c < 0.75:
        cnt = g.ch([n(g.r.randint(-3, 4)), n(1), n(g.r.randint(2, 4)), seqn(g, [g.r.randint(-1, 2) for _ in range(g.r.randint(0, 2))]), g.rv(2) if depth < 2 else n(2), {'op': 'n', 'v': [3, 2]}])
        if cnt['op'] == 'rv':
            cnt['v'] = [[abs(v[0]) % 4, 1] for v in cnt['v']]
        d = c24_tree(g, depth - 1)
        return {'op': 'roll', 'a': g.ch([[cnt, d], [cnt, d], [d]])}
    if c < 0.85:
        a, b = {'op': 'roll', 'a': [n(g.r.randint(1, 2)), n(g.ch([2, 3, 4]))]}, n(g.int_())
        return {'op': g.ch(['add', 'neg', 'pos', 'mul', 'eq', 'abs']), 'a': [a, b]} if g.p(0.6) else {'op': 'mix', 'a': [a, b]}
    if c < 0.92:
        return {'op': 'at', 'a': [n(1), {'op': 'roll', 'a': [n(2), n(3)]}]}
    return blank(g) if g.p(0.5) else sblank(g)


def c24(g):
    evs = g.settings(0.1)
    for i in range(5):
        evs.append(ev(c24_tree(g)))
        evs.append(fact('str', x(i + 1)))
    fl = lambda e: {**e, **({'fl': 1} if g.p(0.6) else {})}  # noqa
    evs.append(fact('str', {'op': 'roll', 'a': [fl(n(g.r.randint(-2, 4))), fl(n(g.r.randint(-2, 4)))]}))
    a, k = g.r.randint(-3, 5), g.ch([1, 2, 6, -2, 0])
    evs.append(fact('str', {'op': 'rollstr', 's': f'{a}d{k}', 'n': a, 'k': k}))
    evs.append(fact('str', {'op': 'roll', 'D': 1, 'a': [n(a), n(k)]}))
    for i in range(5):      # and nothing changed
        evs.append(fact('str', x(i + 1)))
    return evs


# ---------------------------------------------------------------- C13
def refs(e):
    """the stored values an expression uses"""
    if isinstance(e, list):
        return set().union(*map(refs, e)) if e else set()
    if isinstance(e, dict):
        return {e['i']} if e.get('op') == 'x' else set().union(*map(refs, e.values())) if e else set()
    return set()


def c13(g):
    """random uses of shared values; results that use a die with weights summing to more than 10^31 are only watched, not judged"""
    loose = set()
    if g.p(0.12):
        k = g.r.randint(1, 3)
        evs = [ev({'op': 'rv', 'v': [[v, 1] for v in g.r.sample(range(-3, 9), k + 1)], 'W': [g.r.randint(1, 9)] + [g.r.randint(1, 10**g.ch([20, 32, 33, 40])) for _ in range(k)]})]
        evs = c13_(g, evs)
        cnt = 0
        for e in evs:
            if e['k'] == 'ev':
                cnt += 1
                if refs(e['e']) & (loose | {1}):
                    loose.add(cnt)
                    e['e'] = {'op': 'loose', 'a': [e['e']]}
        return [e for e in evs if not (e['k'] == 'fact' and refs(e['e']) & loose)]
    return c13_(g, [])


def c13_(g, evs):
    base = g.r.randint(2, 4)
    for _ in range(base):
        evs.append(ev(g.ch([g.rv(4), {'op': 'roll', 'a': [n(g.r.randint(1, 3)), n(g.ch([2, 3, 4]))]}, {'op': 'roll', 'a': [n(g.r.randint(2, 3)), g.rv(3)]}, g.seq(1, True, True, 4), g.rv(4), {'op': 'const', 'v': [g.int_(), 1]}, blank(g)])))
    base += sum(e['k'] == 'ev' for e in evs) - base
    cnt = base
    for _ in range(g.r.randint(4, 9)):
        i, j = g.r.randint(1, cnt), g.r.randint(1, cnt)
        c = g.r.random()
        if c < 0.22:
            e = {'op': 'roll', 'a': [n(g.ch([1, 1, 2, 3, 0, -1, -2])), x(i)]}
        elif c < 0.26:
            e = {'op': 'roll', 'a': [x(i)]}
        elif c < 0.45:
            e = {'op': g.ch(ARITH[:6] + CMP + BOOL), 'a': [x(i), g.ch([x(j), g.num()])]}
        elif c < 0.55:
            e = {'op': 'at', 'a': [g.ch([n(1), n(2), seqn(g, [1, 2]), seqn(g, [2, 1, 1])]), x(i)]}
        elif c < 0.63:
            e = {'op': 'mix', 'a': [x(i), x(j), g.num()], 'W': [1, 2, 3]}
        elif c < 0.7:
            e = {'op': g.ch(['neg', 'pos', 'abs', 'not', 'len']), 'a': [x(i)]}
        elif c < 0.8:
            f = function(g, nested=0, k=1, types=[g.ch(['N', 'S', 'D', '-'])])
            e = {'op': 'call', 'fn': f, 'a': [x(i)]}
        elif c < 0.88:
            nm = g.ch(['explode', 'sort', 'reverse', 'maximum_of', 'highest', 'lowest', 'absolute'])
            e = {'op': 'lib', 'f': nm, 'a': [n(1), x(i)] if nm in ('highest', 'lowest') else [x(i)]}
        elif c < 0.92:
            e = {'op': 'seq', 'c': g.ch([0, 1, 2, 3]), 'a': [x(i), x(j)]}
        elif c < 0.95:
            evs.append(sett('RV_TRUNC', 'bool', g.p(0.5)) if g.p(0.3) else sett('position order', 'str', g.ch(['lowest first', 'highest first'])) if g.p(0.6) else sett('RV_IGNORE_ZERO_PROBS', 'bool', g.p(0.5)))
            continue
        else:
            evs.append({'k': 'touch', 'i': i, 'how': g.ch(['mean', 'std', 'pairs', 'cut', 'cdf', 'output', 'repr', 'roller', 'hash', 'filter', 'compile'])})
            continue
        evs.append(ev(e, quiet=1))
        cnt += 1
        if g.p(0.25):
            evs.append({'k': 'touch', 'i': g.r.randint(1, cnt), 'how': g.ch(['mean', 'std', 'pairs', 'cut', 'cdf', 'output', 'repr', 'roller', 'hash', 'compile'])})
    if cnt > 12:
        cnt = 12
    for i in range(1, cnt + 1):
        evs.append({'k': 'look', 'i': i})
        evs.append(fact('str', x(i)))
    for i in range(1, base + 1):
        evs.append(ev({'op': 'at', 'a': [g.ch([n(1), n(2), seqn(g, [1, 2])]), x(i)]}))
    return evs


# ---------------------------------------------------------------- C14
def c14(g):
    """near-identical rolls under changing settings; each answer also compared with that of a fresh process"""
    evs = []
    vs = [[g.int_(0, 3) if g.p(0.7) else g.ch([-1, -2]), 1] for _ in range(g.r.randint(1, 3))]
    if g.p(0.5):
        vs.append([2 * g.int_(0, 3) + 1, 2])
    W = [g.r.randint(0, 3) for _ in vs]
    if not any(W):
        W[0] = 1
    base = {'op': 'rv', 'v': vs, 'W': W}
    if g.p(0.4):
        base = {'op': 'rv', 'v': [[i, 1] for i in range(1, g.r.randint(2, 4))], 'W': None}
        base['W'] = [1] * len(base['v'])

    def variant():
        e = copy_(base)
        c = g.r.random()
        if c < 0.2:
            e['fl'] = [1 if g.p(0.6) else 0 for _ in e['v']]
        elif c < 0.35:
            e['W'] = [w * 2 if i == 0 else w for i, w in enumerate(e['W'])]
        elif c < 0.45:
            e['W'] = [w * 3 for w in e['W']]
        elif c < 0.55:
            e['v'], e['W'] = e['v'] + [[7, 1]], e['W'] + [g.r.randint(0, 1)]
        elif c < 0.62:
            e = {'op': 'roll', 'a': [n(g.ch([2, 3]))]}
        elif c < 0.7:
            e = {**n(g.ch([2, 3])), **({'fl': 1} if g.p(0.4) else {})}
        elif c < 0.74:
            e = {'op': 'seq', 'c': 0, 'a': [{'op': 'n', 'v': v, 'fl': 1 if g.p(0.5) else 0} for v in base['v']]}
        elif c < 0.8:       # values that hash alike
            e['v'] = [[{-1: -2, -2: -1}.get(v[0], v[0]), v[1]] if g.p(0.7) else v for v in e['v']]
        elif c < 0.86:
            e['bl'] = [1 if v in ([0, 1], [1, 1]) else 0 for v in e['v']]
        return e
    for _ in range(g.r.randint(5, 9)):
        c = g.r.random()
        if c < 0.2:
            evs.append(g.ch([sett('RV_TRUNC', 'bool', g.p(0.5)), sett('RV_IGNORE_ZERO_PROBS', 'bool', g.p(0.5)), sett('position order', 'str', g.ch(['highest first', 'lowest first'])), sett('explode depth', 'int', g.r.randint(1, 3)), dict(RESET)]))
            continue
        cnt = g.ch([2, 2, 3, 4, 5, -2, -3])
        r = {'op': 'roll', 'a': [{**n(cnt), **({'fl': 1} if g.p(0.15) else {})}, variant()]}
        c = g.r.random()
        e = (r if c < 0.6 else {'op': 'at', 'a': [g.ch([n(1), n(2), seqn(g, [1, 2])]), r]} if c < 0.75 else
             {'op': 'lib', 'f': 'explode', 'a': [variant()]} if c < 0.8 else
             {'op': 'add', 'a': [r, variant()]} if c < 0.88 else
             {'op': 'roll', 'a': [{'op': 'rv', 'v': [[1, 1], [2, 1]], 'W': [1, g.r.randint(1, 2)]}, variant()]} if c < 0.94 else
             {'op': 'call', 'fn': {'ty': ['S'], 'dec': 'cast', 'body': {'op': 'at', 'a': [n(1), param(1)]}}, 'a': [{'op': 'roll', 'a': [n(g.ch([2, 3])), variant()]}]})
        if g.p(0.35):
            q = variant()
            evs.append(fact(g.ch(['mean', 'mean', 'std', 'pairs', 'cdf', 'str']) if q['op'] == 'rv' else 'str', q))
        if g.p(0.3):
            evs.append({'k': 'touch2', 'e': copy_(e), 'how': g.ch(['mean', 'output', 'hash', 'compile', 'pairs'])})
        evs.append(ev(e, fresh=1))
    return evs


# ---------------------------------------------------------------- C22: texts
TEXTS = ['a', 'b', 'fire', 'water', 'A', 'Zed', 'ab', '1', '2.5', '-3', '_x', 'a b', 'x*y', 'é', '10', 'fire!', '~', '1.', 'a1', '--1', '1.2.3', '.5', '7 ']


def text(g, raw=None):
    e = {'op': 'text', 's': g.ch(TEXTS[:5]) if g.p(0.6) else g.ch(TEXTS)}
    if raw:
        e['raw'] = 1
    return e


def tval(g, depth=2):
    """a text value: sums of texts and numbers in any order"""
    c = g.r.random()
    if depth == 0 or c < 0.3:
        return text(g)
    a, b = tval(g, depth - 1), (tval(g, depth - 1) if g.p(0.6) else n(g.r.randint(-3, 4)))
    return {'op': 'add', 'a': [a, b] if g.p(0.5) else [b, a]}


def tseq(g, maxlen=4, nums=True, plain=False):
    k = g.r.randint(1, maxlen)
    a = []
    for _ in range(k):
        c = g.r.random()
        a.append(text(g, g.p(0.7)) if c < 0.6 or not nums and plain else tval(g, 1) if c < 0.7 and not plain else g.num(g.p(0.8)) if c < 0.87 and nums else n(g.ch(LANDMARKS)) if c < 0.9 and nums else text(g))
    if not any(y['op'] == 'text' or y['op'] == 'add' for y in a):
        a.append(text(g, True))
    if nums and not plain and g.p(0.15):
        a.append(g.ch([g.rv(3), {'op': 'seq', 'c': 1, 'a': [text(g, True), n(1)]}, g.range_(), {'op': 'fromseq', 'a': [{'op': 'seq', 'c': 1, 'a': [text(g, True), text(g)]}]}]))
        g.r.shuffle(a)
    flatc = [1, 3] + ([4] if all(y['op'] in ('text', 'n', 'add') for y in a) else [])
    return {'op': 'seq', 'c': g.ch(flatc), 'a': a}


def tdie(g):
    c = g.r.random()
    s = tseq(g, 4, plain=g.p(0.7))
    if c < 0.3:
        return {'op': 'fromseq', 'a': [s]}
    if c < 0.6:
        return {'op': 'roll', 'a': [s]}
    return {'op': 'roll', 'a': [n(g.ch([1, 2, 2, 3, 0])), s]}


def c22(g):
    evs = []
    for _ in range(3):
        a, b, c = [g.ch([text(g), tval(g, 1), n(g.r.randint(-2, 3))]) for _ in range(3)]
        if g.p(0.5):    # associativity and commutativity on the same parts
            x1 = {'op': 'add', 'a': [{'op': 'add', 'a': [copy_(a), copy_(b)]}, copy_(c)]}
            x2 = {'op': 'add', 'a': [copy_(c), {'op': 'add', 'a': [copy_(b), copy_(a)]}]}
            evs += [ev(x1), ev(x2), fact('order', {'op': 'seq', 'c': 1, 'a': [copy_(x1), copy_(x2), tval(g, 2), text(g), n(g.int_()), tval(g, 2)]}), fact('text', copy_(x1)), fact('text', copy_(x2))]
        else:
            t = tval(g, 3)
            evs += [ev(t), fact('text', copy_(t)), fact('order', {'op': 'seq', 'c': 1, 'a': [copy_(t)] + [g.ch([tval(g, 2), text(g), g.num(False), n(g.ch(LANDMARKS))]) for _ in range(4)]})]
    for _ in range(3):
        s = tseq(g)
        c = g.r.random()
        e = (s if c < 0.15 else {'op': 'len', 'a': [s]} if c < 0.22 else {'op': 'at', 'a': [n(g.r.randint(0, 5)), s]} if c < 0.36 else
             {'op': 'at', 'a': [seqn(g, [g.r.randint(0, 4) for _ in range(g.r.randint(0, 3))]), s]} if c < 0.46 else
             {'op': 'lib', 'f': g.ch(['reverse', 'sort']), 'a': [s]} if c < 0.6 else
             {'op': 'add', 'a': [s, g.ch([n(2), text(g), tseq(g)])]} if c < 0.7 else
             {'op': g.ch(CMP), 'a': [s, g.ch([tseq(g), copy_(s), n(g.int_())])]} if c < 0.85 else
             {'op': g.ch(['eq', 'ne']), 'a': [s, tval(g, 1)]} if c < 0.9 else
             {'op': 'lib', 'f': g.ch(['contains', 'count_in']), 'a': [s, s['a'][0] if s['a'][0]['op'] == 'n' else n(1)]} if c < 0.95 else {'op': 'seq', 'c': 1, 'a': [s, tseq(g), n(3)]})
        if e['op'] == 'lib' and e['f'] == 'count_in':
            e['a'] = [e['a'][1], e['a'][0]]
        evs.append(ev(e))
    for _ in range(3):
        d = tdie(g)
        c = g.r.random()
        e = (d if c < 0.3 else {'op': 'add', 'a': [d, g.ch([tdie(g), n(2), text(g), g.rv(3)])]} if c < 0.55 else {'op': 'add', 'a': [g.ch([n(2), text(g), g.rv(3)]), d]} if c < 0.62 else
             {'op': g.ch(['eq', 'ne', 'gt', 'lt']), 'a': [d, g.ch([tdie(g), n(1), text(g)])]} if c < 0.72 else
             {'op': 'mix', 'a': [d, g.ch([tdie(g), n(1), g.rv(2)])], 'W': [g.r.randint(1, 3), 2]} if c < 0.8 else
             {'op': 'at', 'a': [g.ch([n(1), n(2), seqn(g, [1, 2])]), d]} if c < 0.88 else
             {'op': 'filter', 'a': [d, g.ch([n(1), tseq(g)])]} if c < 0.92 else
             {'op': 'roll', 'a': [g.ch([n(g.r.randint(-1, 3)), {'op': 'roll', 'a': [n(2)]}, seqn(g, [1, 1])]), {'op': 'text', 's': g.ch(['a', 'b c', '', '7', '2d6']), 'raw': 1}]} if c < 0.95 else
             {'op': 'call', 'fn': {'ty': [g.ch(['N', 'S', 'D'])], 'dec': 'cast', 'body': g.ch([param(1), {'op': 'add', 'a': [param(1), n(1)]}])}, 'a': [d]})
        evs.append(ev(e))
        if e is d or g.p(0.3):
            evs.append(fact('list', copy_(e)))
    return evs


# ---------------------------------------------------------------- C23: very many dice
def c23_die(g):
    c = g.r.random()
    if c < 0.35:
        return n(g.ch([2, 3, 4, 6, 6, 8, 10]))
    k = g.r.randint(2, 4)
    vs = g.r.sample([0, 1, 2, 3, 4, 5, -1, -2, 7], k)
    ws = [g.ch([1, 1, 2, 3, 7, 17]) for _ in vs]
    if k > 2 and g.p(0.2):
        ws[0] = 0
    return {'op': 'rv', 'v': [[v, 1] for v in vs], 'W': ws}


def c23_count(g, d, lim=31.0):
    """a number of dice whose exact total is around or far beyond the limit of 10^31"""
    tot = d['v'][0] if d['op'] == 'n' else sum(d['W'])
    need = lim / math.log10(tot)
    c = g.r.random()
    k = int(need * (0.9 + 0.3 * g.r.random())) if c < 0.4 else int(need * (1 + 2 * g.r.random()))
    return max(3, min(k, 220))


def c23_sum(g):
    d = c23_die(g)
    e = {'op': 'roll', 'a': [n(c23_count(g, d) * (1 if g.p(0.85) else -1)), d]}
    c = g.r.random()
    if c < 0.35:
        o = g.ch([n(g.int_()), {'op': 'roll', 'a': [n(g.r.randint(2, 40)), c23_die(g)]}, g.ch([g.rv(3, zero_ok=False), {'op': 'roll', 'a': [n(1), n(6)]}])])
        if o['op'] == 'rv':
            o['v'] = [[v[0] % 11, 1] for v in o['v']]
            o['W'] = [w % 20 + 1 for w in o['W']]
        e = {'op': g.ch(['add', 'add', 'sub']), 'a': [e, o] if g.p(0.6) else [o, e]}
    elif c < 0.4:
        e = {'op': 'neg', 'a': [e]}
    return e


def c23_at(g):
    d = c23_die(g)
    k = c23_count(g, d)
    if g.p(0.04):       # a total beyond the largest float
        d = {'op': 'rv', 'v': [[v, 1] for v in g.r.sample([0, 1, 2, 3, -1], 2)], 'W': [g.r.randint(20, 45), g.r.randint(20, 45)]}
        k = g.r.randint(175, 220)
    pos = g.ch([1, 2, 3, k, k - 1, k // 2, k // 2 + 1, k // 3, g.r.randint(1, k)])
    return {'op': 'at', 'a': [n(pos), {'op': 'roll', 'a': [n(k), d]}]}


def c23_any(g, depth=1):
    c = g.r.random()
    if depth == 0 or c < 0.4:
        return c23_sum(g)
    if c < 0.65:
        return c23_at(g)
    if c < 0.75:
        return {'op': g.ch(CMP + ['mod', 'floordiv']), 'a': [c23_sum(g), n(g.ch([2, 3, 10, 50, 100, 7]))]}
    if c < 0.92:
        k = g.r.randint(2, 4)
        return {'op': 'mix', 'a': [g.ch([c23_sum, c23_at])(g) if g.p(0.8) else {'op': 'roll', 'a': [n(2), n(6)]} for _ in range(k)], 'W': [g.r.randint(1, 9) for _ in range(k)]}
    body = g.ch([{'op': 'add', 'a': [param(1), n(3)]}, {'op': 'if', 'c': {'op': 'gt', 'a': [param(1), n(60)]}, 'a': [n(1), n(0)]}, {'op': 'mod', 'a': [param(1), n(5)]}])
    return {'op': 'call', 'fn': {'ty': ['N'], 'dec': 'cast', 'body': body}, 'a': [c23_sum(g)]}


def c23(g):
    return [{'k': 'big', 'e': c23_any(g), 'use': 1 if g.p(0.3) else 0} for _ in range(2)]


# ---------------------------------------------------------------- C10: call scripts
def call_script(g):
    ops, depth, pend = [], 0, False
    hows = g.ch([['p'], ['p', 'k', 'd', 'c'], ['d'], ['c', 'p']])
    lims = g.ch([[1, 2], [2, 3, 4], [1, 2, 3, 4, 5, 6], [5, 10, 12]])
    w = g.ch([(5, 2, 1, 1, 1), (8, 1, 1, 1, 0), (4, 4, 2, 1, 1), (6, 1, 3, 2, 0), (12, 1, 0, 0, 0)])
    for _ in range(g.r.randint(4, 40)):
        k = g.r.choices(['call', 'end', 'raise', 'set', 'reset'], w)[0]
        if k == 'call':
            ops.append({'k': k, 'lim': 0 if g.p(0.1) else 1, 'n': g.ch([1, 1, 1, 1, 2, 3]), 'how': g.ch(hows)})
        elif k == 'end':
            ops.append({'k': k, 'some': 0 if g.p(0.4) else 1})
        elif k == 'raise':
            ops.append({'k': k})
            while g.p(0.4):
                ops.append({'k': 'prop'})
            ops.append({'k': 'catch'})
        elif k == 'set':
            ops.append({'k': 'set', 'm': g.ch(lims)} if g.p(0.8) else {'k': 'bad', 'm': g.ch([0, -1])})
        else:
            ops.append({'k': 'reset'})
    return ops


# ---------------------------------------------------------------- scripts enumerated by TLC (GenSession)
def exact(e):
    """weights as exact numbers of the real code (the recorder derives the residues)"""
    if isinstance(e, list):
        return [exact(y) for y in e]
    if isinstance(e, dict):
        d = {k: exact(v) for k, v in e.items()}
        if d.get('op') in ('rv', 'mix') and 'w' in d:
            d['W'] = d.pop('w')
        return d
    return e


def enum_ops(scripts, r, tier):
    got = [exact(s) for s in scripts]
    r.shuffle(got)
    return got


def enum_settings(scripts, r, tier):
    """after each pair of settings calls, everything the settings govern"""
    out = []
    for s in scripts:
        g = G(r)
        evs = [dict(RESET)] + exact(s)
        probes = PROBES if tier == 'thorough' else r.sample(PROBES, 4)
        evs += [ev(copy_(pr)) for pr in probes] + [out_fact(g, {'op': 'roll', 'a': [n(1), n(2)]}, simple=True)]
        out.append(evs)
    r.shuffle(out)
    return out


def enum_memo(scripts, r, tier):
    """two calls, each under its own setting, one after the other"""
    one = [exact(s) for s in scripts]
    pairs = [(a, b) for a in one for b in one]
    r.shuffle(pairs)
    if tier == 'quick':
        pairs = pairs[:4000]
    return [[dict(RESET), *copy_(a), dict(RESET), *copy_(b)] for a, b in pairs]


def enum_uses(scripts, r, tier):
    """uses of small dice, some of them in every run, all of them in a thorough one"""
    got = [exact(s) for s in scripts]
    r.shuffle(got)
    for s in got:
        for e in s:
            if e['k'] == 'ev' and e['e'].get('fn', {}).get('rec'):
                e['calls'] = 1
    return got[:1600] if tier == 'quick' else got


def enum_share(scripts, r, tier):
    """a value, uses of it, and then everything looked at again"""
    got = [exact(s) for s in scripts]
    r.shuffle(got)
    got = got[:30000]
    if tier == 'quick':     # a second use of the same value, at random
        same = {}
        for s in got:
            same.setdefault(json.dumps(s[0], sort_keys=True), []).append(s[1])
        got = [s + [copy_(r.choice(same[json.dumps(s[0], sort_keys=True)]))] for s in got]
    out = []
    for s in got:
        evs = [dict(RESET), s[0]] + [{**e, 'quiet': 1} for e in s[1:]]
        g = G(r)
        if g.p(0.5):
            evs.insert(2, {'k': 'touch', 'i': 1, 'how': g.ch(['mean', 'std', 'pairs', 'cut', 'cdf', 'output', 'repr', 'roller', 'hash', 'compile'])})
        for i in range(1, len(s) + 1):
            evs += [{'k': 'look', 'i': i}, fact('str', x(i))]
        out.append(evs)
    return out
