"""Projection of real PythonDice values onto the JSON observations the TLA+ specification compares with."""
import math
from fractions import Fraction

ODD = [0, -2]       # a number outside what the specification can express: equal to no specified number


def num(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return [v, 1] if abs(v) <= 10**9 else list(ODD)
    if isinstance(v, float):
        if math.isnan(v) or math.isinf(v):
            return list(ODD)
        f = Fraction(v)
        if f.denominator > 1024:
            g = f.limit_denominator(1024)
            if abs(float(g) - v) > 1e-9 * max(1.0, abs(v)):
                return list(ODD)
            f = g
        lim = 10**9 if f.denominator == 1 else 10**6
        return [f.numerator, f.denominator] if abs(f.numerator) <= lim else list(ODD)
    if type(v).__name__ == 'StringVal':
        return text(v)
    return list(ODD)


def codes(s):
    return [ord(c) for c in s]


def text(v):
    """<<0, -1, terms>>: terms sorted by text, the number (if any) as a first term with the pseudo-text [-1]"""
    terms = []
    const = None
    for k, c in v.data.items():
        if k == '_UNIQUE_STRING':
            const = c
        else:
            terms.append((codes(k), num(c)))
    terms.sort()
    if const is not None:
        terms.insert(0, ([-1], num(const)))
    return [0, -1, [[k, c] for k, c in terms]]


def residue(p, M):
    """weight residue: 0 for 0, 1..M for positive integers, negative markers for what is no weight"""
    if isinstance(p, bool) or not isinstance(p, int):
        return -2
    if p < 0:
        return -1
    return 0 if p == 0 else ((p - 1) % M) + 1


class Projector:
    def __init__(self, M):
        self.M = M
        import dice_calc
        self.RV, self.BlankRV, self.Seq = dice_calc.RV, dice_calc.BlankRV, dice_calc.Seq

    def flat(self, v):
        if isinstance(v, (list, tuple, range, self.Seq)):
            return [y for x in v for y in self.flat(x)]
        return [num(x) for x in v.vals] if isinstance(v, self.RV) else [] if isinstance(v, self.BlankRV) else [num(v)]

    def __call__(self, v):
        if v is None:
            return {'t': 'none'}
        if isinstance(v, (bool, int, float)):
            return {'t': 'n', 'v': num(v)}
        if isinstance(v, self.RV):
            g = 0
            ok = all(isinstance(p, int) and p >= 0 for p in v.probs)
            for p in v.probs:
                g = math.gcd(g, p) if ok else 0
            return {'t': 'd', 'v': [num(x) for x in v.vals], 'w': [residue(p, self.M) for p in v.probs], 'g': min(g, 10**9), 'L': len(v)}
        if isinstance(v, self.BlankRV):
            return {'t': 'b', 'L': len(v)}
        if isinstance(v, self.Seq):
            return {'t': 's', 'q': [num(x) for x in v]}
        if isinstance(v, (list, tuple, range)):     # plain containers of the host language, as the sequence they denote
            return {'t': 's', 'q': self.flat(v)}
        if type(v).__name__ == 'StringVal':
            return {'t': 'n', 'v': num(v)}
        if isinstance(v, str):
            return {'t': 'n', 'v': [0, -1, [[codes(v), [1, 1]]]]}
        return {'t': 'other', 'x': type(v).__name__}
