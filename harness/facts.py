"""Observations other than result values.  Numbers are reported as integers the specification can compare exactly:
a float y is reported as [sign, digits] with digits the decimal limbs (base 10^4, least significant first) of |y| * 10^12."""
import io
import math
import random
import re
import sys
from fractions import Fraction

import project


def limbs(k):
    out = []
    while k:
        out.append(k % 10000)
        k //= 10000
    return out


def fixed(y, places=12):
    if y is None or isinstance(y, bool) or not isinstance(y, (int, float)) or math.isnan(y) or math.isinf(y):
        return {'bad': repr(y)[:50]}
    f = Fraction(y) * 10**places
    k = int(f + Fraction(1, 2)) if f >= 0 else -int(-f + Fraction(1, 2))
    return {'s': -1 if k < 0 else 1, 'm': limbs(abs(k))}


def observe(s, ev):
    v, o = s.guarded(lambda: s.run(ev['e']))
    if o is not None:
        ev['o'] = o
        return
    f = globals()['f_' + ev['f']]
    r, o = s.guarded(lambda: f(s, ev, v))
    ev['o'] = r if o is None else o


def f_str(s, ev, v):
    t = str(v)
    k = 'host' if v is None or isinstance(v, (bool, int, float, list, tuple, range, str)) else s.proj(v)['t']
    return {'t': 'ok', 'k': k, 's': project.codes(t)}


def f_mean(s, ev, v):
    return {'t': 'ok', 'y': fixed(v.mean())}


def f_std(s, ev, v):
    return {'t': 'ok', 'y': fixed(v.std())}


def f_pairs(s, ev, v):
    r = v.get_vals_probs(ev['cut'] / 4096) if 'cut' in ev else v.get_vals_probs()
    return {'t': 'ok', 'v': [project.num(x) for x, _ in r], 'p': [fixed(p) for _, p in r]}


def f_cdf(s, ev, v):
    return {'t': 'ok', 'd': s.proj(v.get_cdf())}


NUM = r'-?\d+(?:\.\d+)?'


def f_output(s, ev, v):
    dc = s.dc
    kw = {}
    if 'name' in ev:
        kw['named'] = ev['name']
    if 'bw' in ev:
        kw['blocks_width'] = ev['bw']
    if ev.get('nopdf'):
        kw['show_pdf'] = False
    if 'cut' in ev:
        kw['cdf_cut'] = ev['cut']
    got = []
    if ev['way'] == 'ret':
        kw['print_'] = False
    elif ev['way'] == 'fn':
        kw['print_fn'] = lambda t: got.append(['fn', t])
    mark = len(s.printed)
    old, sys.stdout = sys.stdout, io.StringIO()
    try:
        if ev['via'] == 'repr':
            r = repr(v)
        elif ev['via'] == 'm':
            r = v.output(**kw)
        else:
            r = dc.output(v, **kw)
        std = sys.stdout.getvalue()
    finally:
        sys.stdout = old
    if r is not None:
        got.append(['ret', r])
    if std:
        got.append(['def0', std[:-1] if std.endswith('\n') else std])
    for i, t in s.printed[mark:]:
        got.append([f'def{i}', t])
    del s.printed[mark:]
    if 'name' in ev:
        ev['nm'] = project.codes(ev['name'])
    if len(got) != 1 or not isinstance(got[0][1], str):
        return {'t': 'bad', 'x': repr(got)[:300]}
    chan, text = got[0]
    # witnesses: the integers from which the specification re-renders the whole text
    lines = text.split('\n')
    head = lines[0]
    name = ev.get('name')
    if name is not None and head.startswith(name + ' '):
        head = head[len(name) + 1:]
    w = {'mean': [0, 0], 'std': [0, 0], 'rows': []}
    m = re.fullmatch(rf'({NUM}) ± ({NUM})', head)
    if m:
        w['mean'], w['std'] = hund(m.group(1)), hund(m.group(2))
    for ln in lines[1:]:
        m = re.fullmatch(rf'( *)({NUM}): *({NUM})  (█*)', ln)
        if m:
            w['rows'].append([hund(m.group(3))[1], len(m.group(4))])
    return {'t': 'ok', 'chan': chan, 'text': [ord(c) for c in text], 'w': w}


def hund(t):
    """[sign (-1 if the text starts with a minus), hundredths]"""
    f = Fraction(t) * 100
    return [-1 if t.startswith('-') else 1, int(abs(f)) if f.denominator == 1 and abs(f) < 10**9 else 10**9]


def f_sample(s, ev, v):
    random.seed(ev['rseed'])
    if ev['count'] < 0:
        outs = [s.dc.roller(v) for _ in range(ev['single'])]
        single = all(not isinstance(x, (tuple, list)) for x in outs)
    elif 'reps' in ev:
        rs = [s.dc.roller(v, ev['count']) for _ in range(ev['reps'])]
        per = [sorted(project.num(x) for x in r) for r in rs]
        return {'t': 'ok', 'shape': 1 if all(isinstance(r, tuple) for r in rs) else 0, 'len': len(rs[0]), 'per': per, 'v': [], 'c': [], 'same': 0}
    else:
        r = s.dc.roller(v, ev['count'])
        single = isinstance(r, tuple)
        outs = list(r)
    vals = [project.num(x) if isinstance(x, (int, float)) else [0, -2] for x in outs]
    cnt, same = {}, 0
    for i, x in enumerate(vals):
        cnt[tuple(x)] = cnt.get(tuple(x), 0) + 1
        if i and vals[i - 1] == x:
            same += 1
    return {'t': 'ok', 'shape': 1 if single else 0, 'len': len(outs), 'v': [list(k) for k in cnt], 'c': list(cnt.values()), 'same': same}


def f_text(s, ev, v):
    return {'t': 'ok', 's': project.codes(str(v)), 'fm': project.codes(f'{v}')}


def f_list(s, ev, v):
    rows = []
    for x, p in v.get_vals_probs():
        rows.append({'t': 1, 'c': project.codes(x), 'v': [0, 1], 'p': fixed(p)} if isinstance(x, str) else {'t': 0, 'c': [], 'v': project.num(x), 'p': fixed(p)})
    return {'t': 'ok', 'rows': rows}


def f_order(s, ev, v):
    xs = list(v)
    b = lambda y: 1 if y is True else 0 if y is False else 9  # noqa
    m = [[[b(x == y), b(x != y), b(x < y), b(x <= y), b(x > y), b(x >= y), b(hash(x) == hash(y))] for y in xs] for x in xs]
    return {'t': 'ok', 'm': m, 'set': len(set(xs))}


def big(s, v, ev):
    """every outcome with its probability to 14 decimals, from the exact integer weights; and the usual uses do not fail"""
    if not isinstance(v, s.proj.RV):
        return {'t': 'other'}
    tot = sum(v.probs)
    if tot <= 0 or not all(isinstance(p, int) and p >= 0 for p in v.probs) or not all(isinstance(x, int) or float(x).is_integer() for x in v.vals):
        return {'t': 'not a die'}
    if ev.get('use'):
        m, sd = v.mean(), v.std()
        if not (math.isfinite(m) and math.isfinite(sd) and sd >= 0):
            return {'t': 'statistics'}
        if not isinstance(s.dc.output(v, print_=False), str) or len(v.get_vals_probs(0.01)) == 0:
            return {'t': 'output'}
    ps = [(p * 10**14 + tot // 2) // tot for p in v.probs]
    return {'t': 'ok', 'v': [int(x) for x in v.vals], 'p': [[p // 10**7, p % 10**7] for p in ps]}
