"""Histories that every run replays: places where this code once went wrong or easily would (inputs only, as in gen and progen)."""
from gen import n, x, ev, sett, RESET


def s(*a, c=0):
    return {'op': 'seq', 'c': c, 'a': [n(v) if isinstance(v, int) else v for v in a]}


def rv(**kw):
    vs, ws = zip(*kw['f'])
    return {'op': 'rv', 'v': [list(v) if isinstance(v, tuple) else [v, 1] for v in vs], 'W': list(ws)}


def die(*f):
    return rv(f=f)


def roll(a, b):
    return {'op': 'roll', 'a': [n(a) if isinstance(a, int) else a, n(b) if isinstance(b, int) else b]}


def at(a, b, **kw):
    return {'op': 'at', 'a': [n(a) if isinstance(a, int) else a, b], **kw}


def o(op, *a, **kw):
    return {'op': op, 'a': [n(v) if isinstance(v, int) else v for v in a], **kw}


def truth(b):
    return {'op': 'n', 'v': [int(b), 1], 'bool': 1}


def looks(k, size=3):
    """everything that tells a pool from a die"""
    return [ev(o('len', x(k)))] + [ev(at(i, x(k))) for i in range(1, size + 1)] + [ev(at(s(1, 2), x(k)))]


def fl(v):
    return {'op': 'n', 'v': [v, 1], 'fl': 1}


TRUNC, ZEROS = 'RV_TRUNC', 'RV_IGNORE_ZERO_PROBS'
HI, LO = sett('position order', 'str', 'highest first'), sett('position order', 'str', 'lowest first')


def on(name):
    return sett(name, 'bool', True)


def off(name):
    return sett(name, 'bool', False)


GAP = die((0, 0), (1, 1), (4, 0), (6, 2))       # with outcomes of weight zero
HALF = die(((-3, 2), 1), ((1, 2), 2), (2, 1))
PICK = die((1, 1), (2, 3), (3, 0))
POOLS = [roll(3, 4), roll(2, GAP), roll(3, HALF), roll(-2, 4), roll(2, roll(2, 3)), roll(1, 6), roll(0, 6), roll(3, die((2, 5)))]


def api():
    L = {p: [] for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C11', 'C13', 'C14', 'C24')}
    # the settings change between making a die and using it
    for name, d in [(ZEROS, GAP), (TRUNC, HALF), (ZEROS, HALF), (TRUNC, GAP)]:
        for first in (off, on):
            second = on if first is off else off
            for k in (1, 2, 3):
                use = [at(i, x(1)) for i in range(0, k + 2)] + [at(s(1, k), x(1)), at(s(2, 2, 1), x(1))]
                for q in (HI, LO):
                    L['C06'].append([q, first(name), ev(roll(k, d)), second(name)] + [ev(u) for u in use])
                L['C14'].append([first(name), ev(roll(k, d)), ev(at(1, x(1))), second(name), ev(roll(k, d)), ev(at(1, x(2))), first(name), ev(roll(k, d)), ev(at(1, roll(k, d)))])
            L['C02'].append([first(name), ev(d), second(name), ev(o('add', x(1), 1)), ev(o('eq', x(1), x(1))), ev(o('abs', x(1))), ev(o('mul', x(1), x(1))), ev(o('not', x(1)))])
            L['C05'].append([first(name), ev(d), second(name), ev({'op': 'mix', 'a': [x(1), n(3)]}), ev({'op': 'mix', 'a': [x(1)]}), ev({'op': 'mix', 'a': [x(1), roll(1, 6)], 'W': [2, 1]})])
            L['C01'].append([first(name), ev(d, strict=1), second(name), ev(o('fromseq', s(x(1))), strict=1), ev(o('filter', x(1), 6), strict=1), ev(d, strict=1)])
            L['C04'].append([first(name), ev(d), second(name), ev(roll(2, x(1))), ev(roll(-1, x(1))), ev(roll(1, x(1))), ev(roll(die((1, 1), (2, 1)), x(1)))])
            L['C08'].append([first(name), ev(roll(2, d)), second(name), ev({'op': 'call', 'fn': {'ty': ['S'], 'dec': 'cast', 'body': at(1, {'op': 'p', 'i': 1}), 'rec': 1}, 'a': [x(1)]}, calls=1)])
    # pools: what is one, what is not
    notpools = [roll(PICK, 6), roll(die((2, 1)), 6), o('neg', roll(2, 3)), o('add', roll(2, 3), 0), o('pos', roll(2, 3)), o('abs', roll(2, 3)), o('round', roll(2, 3)), o('mul', roll(2, 3), 1),
                {'op': 'mix', 'a': [roll(2, 3)]}, {'op': 'mix', 'a': [roll(2, 3)], 'W': [5]}, o('filter', roll(2, 3), 99), at(1, roll(3, 4)), at(s(1, 2), roll(3, 4)), roll(1, roll(2, 3)), roll(-1, roll(2, 3)),
                roll(s(1, 1), 4), roll(s(2), s(1, 4)), roll(2, roll(1, 4)), roll(fl(2), 4), roll({'op': 'n', 'v': [3, 2]}, 4), roll(truth(1), 4), o('trunc', roll(2, 3)), o('or', roll(2, 3), 0),
                {'op': 'const', 'v': [3, 1]}, o('fromseq', s(1, 2)), o('fromseq', s(roll(2, 3))), {'op': 'lib', 'f': 'highest', 'a': [n(2), roll(3, 3)]}, {'op': 'lib', 'f': 'middle', 'a': [n(2), roll(2, 3)]},
                {'op': 'lib', 'f': 'maximum_of', 'a': [roll(2, 3)]}, {'op': 'lib', 'f': 'explode', 'a': [roll(2, 3)]}, o('not', roll(2, 3)), o('sub', roll(4, 2), roll(2, 2))]
    for q in (HI, LO):
        for e in notpools + POOLS:
            h = [q, ev(e)] + looks(1)
            for p in ('C04', 'C06'):
                L[p].append(h)
        for e in POOLS:
            L['C06'].append([q] + [ev(at(s(*ix), e)) for ix in [(1, 1), (1, 1, 2), (3, 2, 1), (0, 1), (1, 9), (-1, 2), (1,), (), (2, 2)]] + [ev(at(truth(1), e)), ev(at(o('list', 1, 2), e))])
    L['C24'] += [[ev(e)] for e in notpools + POOLS] + [[ev(roll(a, b)), ev(roll(c, x(1))), ev(roll(2, 6)), ev(x(1))] for a in (-2, -1, 0, 1, 2) for b in (-2, -1, 0, 1, 2) for c in (-2, 1, 2)]
    # sequences
    digits = [n(0), n(7), n(305), n(98765), truth(1), truth(0), fl(305)]
    for d in digits[:6]:
        L['C03'].append([ev(at(s(*ix), d)) for ix in [(1,), (2,), (1, 2), (5, 1), (0,), (-1, 1), ()]] + [ev(at(o('list', 1, 2), d))])
        L['C03'].append([ev(at(i, d, my=1)) for i in range(-1, 7)])
    L['C03'].append([ev(at(truth(1), d, my=1)) for d in digits[:6]] + [ev(at(truth(1), s(4, 5))), ev(at(truth(0), s(4, 5)))])
    L['C03'] += [[ev(s(1, roll(1, 3), 9, c=c)), ev(s(s(2, roll(2, 2)), 5, c=c)), ev(s({'op': 'blank'}, 3, {'op': 'blank'}, c=c)), ev(s(GAP, HALF, c=c)), ev(s(o('list', 1, o('list', 2, roll(1, 2)), 3), c=c))] for c in range(4)]
    L['C03'] += [[ev(o(op, a, b)) for op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge')] for a, b in [(s(), s()), (s(), s(0)), (s(1), s(1, -1000000)), (s(1, 2), s(1)), (s(2, 1), s(1, 2)), (s(1, 2), s(1, 2)), (s(1, 2), s(1, 3)), (s(3), 3), (s(), 0), (s(1, 1), roll(1, 3))]]
    # mixtures
    L['C05'] += [[ev({'op': 'mix', 'a': a, **({'W': w} if w else {})}) for w in (None, [1] * len(a), [2 + i for i in range(len(a))], [0] + [3] * (len(a) - 1))] for a in
                 [[roll(2, 3), n(4)], [GAP, HALF], [roll(1, 6), {'op': 'blank'}], [{'op': 'none'}, roll(1, 4), n(2)], [roll(1, 2)] * 3, [die((1, 2), (2, 3)), die((1, 3), (5, 4)), n(9)]]]
    # casts: every kind of argument for every declared type
    args = [n(3), truth(1), fl(2), {'op': 'n', 'v': [3, 2]}, s(1, 2), s(), o('list', 1, 2), {'op': 'range', 'lo': 1, 'hi': 2}, GAP, roll(2, 2), roll(1, GAP), roll(0, 4), {'op': 'blank'}, {'op': 'roll', 'a': [{'op': 'blank'}, n(2)]}]
    for t in ['N', 'S', 'D', '-', 'o']:
        for dec in ('cast', 'type'):
            h = []
            for a in args:
                for body in ([{'op': 'p', 'i': 1}] if t != 'S' else [{'op': 'p', 'i': 1}, {'op': 'len', 'a': [{'op': 'p', 'i': 1}]}, at(1, {'op': 'p', 'i': 1})]):
                    h.append(ev({'op': 'call', 'fn': {'ty': [t], 'dec': dec, 'body': body, 'rec': 1}, 'a': [a]}, calls=1))
                    h.append(ev({'op': 'call', 'fn': {'ty': ['N', t], 'dec': dec, 'body': {'op': 'p', 'i': 2}}, 'a': [roll(1, 2), a]}))
                    h.append(ev({'op': 'call', 'fn': {'ty': ['N', t], 'dec': dec, 'body': {'op': 'p', 'i': 2}, 'kwo': 1}, 'a': [GAP, a], 'kw': 1}))
            L['C07'] += [h[i:i + 6] for i in range(0, len(h), 6)]
    for k in (1, 2, 3, 4):
        for d in (n(2), n(3), n(-2), GAP, HALF, die((0, 1), (1, 5)), die((3, 2)), roll(2, 2)):
            L['C08'].append([ev({'op': 'call', 'fn': {'ty': ['S'], 'dec': 'cast', 'body': b, 'rec': 1}, 'a': [roll(k, d)]}, calls=1) for b in
                             [o('add', o('mul', at(1, {'op': 'p', 'i': 1}), 7), at(k, {'op': 'p', 'i': 1})), {'op': 'len', 'a': [{'op': 'p', 'i': 1}]}]])
    # blanks next to every kind of operand
    B, S_ = {'op': 'blank'}, {'op': 'roll', 'a': [{'op': 'blank'}, n(3)]}
    for b in (B, S_):
        for other in [n(1), n(0), s(1), s(1, 1), s(1, 2), s(), s(2, 1), roll(2, 3), die((1, 1)), B, S_]:
            L['C09'].append([ev(o(op, p, q)) for op in ('add', 'sub', 'mul', 'floordiv', 'truediv', 'mod', 'pow', 'eq', 'ne', 'lt', 'ge', 'and', 'or') for p, q in ((b, other), (other, b))])
            if other not in (B, S_) and other.get('op') != 'roll':
                L['C09'].append([ev(at(other, b))])
    # library functions over pools, under both orders, with counts at and past the ends
    for q in (HI, LO):
        for f in ('highest', 'lowest', 'middle'):
            for e in POOLS[:5]:
                L['C11'].append([q] + [ev({'op': 'lib', 'f': f, 'a': [n(k), e]}) for k in (-1, 0, 1, 2, 3, 4)])
        for f in ('reverse', 'sort', 'maximum_of', 'explode'):
            L['C11'].append([q] + [ev({'op': 'lib', 'f': f, 'a': [e]}) for e in [n(4), s(3, 1, 2), s(), s(2, 2), roll(1, 3), GAP, roll(2, 2), die((3, 1))]])
    for d in (1, 2, 3):
        L['C14'].append([sett('explode depth', 'int', d) if i % 2 == 0 else sett('explode depth', 'int', 4 - d) if j == 0 else ev({'op': 'lib', 'f': 'explode', 'a': [e]}) for e in (roll(1, 3), roll(2, 2), GAP) for i in range(4) for j in range(2)])
    # six and six point zero; equal hashes; the same pool under both orders
    six = {'op': 'rv', 'v': [[6, 1], [1, 1]], 'W': [1, 1]}
    sixf = {**six, 'fl': [1, 0]}
    for a, b in [(six, sixf), (sixf, six), (die((-1, 1), (3, 1)), die((-2, 1), (3, 1))), (die((0, 1), (1, 1)), {'op': 'rv', 'v': [[0, 1], [1, 1]], 'W': [1, 1], 'bl': [0, 1]})]:
        L['C14'].append([ev(roll(k, e)) for k in (2, 3, 2) for e in (a, b)] + [ev(o('add', a, b)), ev(o('add', b, a)), ev(at(1, roll(2, a))), LO, ev(at(1, roll(2, a))), HI, ev(at(1, roll(2, a)))])
    # using a value leaves it as it was
    for e in POOLS + [GAP, HALF, s(1, 2), s(roll(1, 2), 5)]:
        h = [ev(e), ev(o('add', x(1), 0)), ev(roll(2, x(1))), ev(roll(1, x(1))), ev(x(1)), ev(s(x(1), x(1))), ev({'op': 'mix', 'a': [x(1), x(1)]}), ev(o('neg', x(1))), ev(x(1)), ev(o('len', x(1))), ev(at(1, x(1))), ev(x(1))]
        L['C13'].append(h)
    return L


def t(text, modes=(('safe', False, False), ('unsafe', True, True), ('unsafe', False, True), ('safe', True, False))):
    """the text under several ways of compiling and running it"""
    return [e for m, d, i in modes for e in ({'k': 'run', 's': text, 'mode': m, 'dyn': d, 'opint': i, 'strict': True}, dict(RESET))]


def c(text):
    return [{'k': 'run', 's': text, 'mode': 'compile', 'dyn': d, 'opint': d, 'strict': st} for d in (False, True) for st in (True, False)] + [{'k': 'pure', 's': text, 'dyn': True, 'opint': False, 'strict': True}] * 2


F = 'function: f { result: {1,2,2} }\nfunction: g A:n { result: A + 1 }\nfunction: A:n h { result: A * 2 }\nfunction: A p B:s { result: A + #B }\nfunction: A B q { result: A - B }\n'


def programs():
    L = {'C18': [], 'C19': [], 'C20': [], 'C21': []}
    calls = ['[[f] contains 2]', '[[g 1] h]', '[[g [g 1]] h]', '[[f] p [f]]', '[[g 1] [g 2] q]', '[[[g 1] h] h]', '[[f] h]', '[g [f]]', '[[f] p {1,[g 2]}]', '[count [f] in [f]]', '[highest of [g 1] and [g 2]]', '[[absolute 1] contains 1]',
             '[[sort {2,1}] contains [g 0]]', '[(1) h]', '[{1} h]', '[-1 h]', '[#[f] h]', '[d2 h]', '[1d2 h]', '[[g 1]+1 h]', '[1+[g 1] h]', '[1 @ [f] h]', '["a" h]']
    L['C20'] += [c(F + 'output ' + e) for e in calls]
    L['C18'] += [t(F + 'output ' + e) for e in calls[:-1]]
    L['C20'] += [c(e) for e in ['output [[f]]', 'output [[]]', 'output [f [g]]', 'output [[f] [g]]', 'output 1 output', 'output {[f]}', 'output [f]]', 'output [[f]', 'function: [f] { } output 1']]
    truths = ['1 @ (2 < 3)', '1 @ (3 < 2)', '{1} @ (1 = 1)', '(1 = 1) @ 35', '(1 < 2) @ {7,8}', '#(1 = 1)', '!(1 = 1)', '(1 = 1) & (2 = 2)', '(1 = 1) | 0', '-(1 = 1)', '+(1 < 2)', '(1 < 2) + (2 < 3)', '(1 < 2)d4', '2d(1 < 2)', '{(1 < 2), 5}', '{(1 < 2)..3}',
              '1 @ !0', '1 @ !5', '{1,2} @ !0', '2 @ (5 > 1)', '(1 < 2) = 1', '1 @ (1 & 1)']
    L['C18'] += [t('output ' + e) for e in truths]
    prec = ['-2 ^ 2', '2 ^ 3 ^ 2', '1 < 2 < 3', '3 > 2 > 1', '1 = 1 = 1', '1 != 2 = 1', '2 < 1 = 0', '!d2 & d2', '!d2 = 1', '-d4 @ 3d6', '2 * 1 @ 3d6', '1 @ 3d6 * 2', '1 @ 3d6 ^ 2', '1 @ 2 @ 34', '!1 @ {0,1}', '-1 @ {3,4}', '#3d6 + 1', '#{1,2} @ {5,6}', '1 + 2d6 * 3 - 4', 'd2 | d2 & d2', 'd2 & d2 | d2',
            'd2 < 2 & d2 > 1', '1 & 0 < 1', '7 / 2 * 2', '7 * 2 / 4', '10 - 3 - 2', '-7 / 2', '7 / -2', '-7 / -2', '2 - -2', '2--2', '--2', '-+-2', '!!3', '- #{1,1}', '#-{1,1}', '!-d2', '-!d2', '2 ^ -1 ^ 2' if False else '2 ^ 0 ^ 2', '-{1,2} ^ 2', '(-d2) ^ 2', '-d2 ^ 2', '+d2 ^ 2', '!d2 ^ 0']
    L['C18'] += [t('output ' + e) for e in prec]
    L['C18'] += [t('output ' + e) for e in ['007', '00', '0010 + 01', '010d6', '1.50', '01.5', '1.05', '0.0625 * 16', '{01..03}', '007 @ 0012345678', '\u0663', '1\u0663 + \uff11', '\u0967.25 * 4', '1.\u0665', '\u06f0.\u0665 + 0.5', '12\u0663.5']]
    dups = [('f', 'A A', '1 2', 'A'), ('f', 'A:n A', '1 2', 'A'), ('f', 'A A:n', '1 2', 'A'), ('f', 'A:s A:s', '{1,2} {3}', '#A'), ('f', 'A A A', '1 2 3', 'A'), ('f', 'A B A', '1 2 3', 'A * 10 + B'), ('f', 'A:n B A:d B:s', '1 2 3 4', 'A * 10 + B'), ('f', 'A:n A:n', 'd2 d3', 'A'), ('f', 'A A', 'd2 2d2', 'A')]
    for w, ps, as_, r in dups:
        tx = f'function: {w} {ps} {{ result: {r} }}\noutput [{w} {as_}]'
        L['C21'].append(t(tx))
        L['C20'].append(c(tx))
    V = ['X', '_X', '__', '_', 'T_N', 'T_S', 'T_D', 'RV', 'V', 'VT_N', 'V_X', '_T_N', 'VARS', 'DUMMY', 'SEQ']
    W = ['v', 'v X', 'f', 'v x', 'vt n', 'x', 'X', 'X X', 'rv', 'rv X', 't n', 'vars', 'dummy', 'dummy X', 'd X', 'seq X', 'get seq', 'f f', 'f X']
    for v in V:
        for w in W[:7] if v not in ('_X', 'X', '__', 'RV') else W:
            ps = ' '.join('Q' if y == 'X' else y for y in w.split(' ')) if w.count('X') < 2 else 'Q R'
            if w in ('d X',):
                continue
            as_ = ' '.join('3' if y == 'X' else y for y in w.split(' '))
            L['C21'].append(t(f'{v}: 7\nfunction: {ps} {{ result: {"Q" if "X" in w else "4"} + {v} }}\noutput [{as_}]\noutput {v} named "[{v}]"\nloop {v} over {{1..2}} {{ output {v} + [{as_}] }}', (('safe', False, False), ('unsafe', True, True))))
        L['C21'].append(t(f'output {v}') + t(f'function: f {v} {{ result: {v} }} output [f 3]') + t(f'function: f {v}:n {{ result: {v} }} output [f d3]') + t(f'function: f A:s {{ {v}: A result: {v} }} output [f 2d2] {v}: 1 output {v}'))
    words = ['and', 'def', 'none', 'print', 'vars', 'len', 'roll', 'output', 'list', 'eval', 'f', 'settings set', 'get seq', 'myrange', 'anydice casting', 'max func depth', 'import', 'exec', 'printed', 'lambda', 'd x' if False else 'dx', 'rv', 'math', 'self', 'true', 'sorted', 'x', 'getattr', 'metaclass', 'write', 'getiter']
    for w in words:
        L['C21'].append(t(f'function: {w} {{ result: 5 }}\noutput [{w}]\noutput {{1..3}}\noutput 2d2\noutput #{{4,4}}', (('safe', False, False), ('unsafe', True, True))) +
                        t(f'function: {w} A:s {{ result: #A }}\nfunction: f {w} {{ result: 8 }}\noutput [{w} 2d2]\noutput [f {w}]\noutput [reverse {{1,2}}]', (('unsafe', False, False), ('safe', True, False))))
    names = ['a\\nb', '\\', '\\t', '{x}', '{{', '}}', '%s', '[A', 'A]', '[A]', '[A][A]', '[a]', '[ A]', '\r', '\x00', 'a\rb\x00c', "'", '\u2028', '\\[A]', '{[A]}', '[[A]]', '{A}', '\\x00', '\\u0041', '\t', '#', '[A]\\']
    L['C19'] += [t(f'A: {{1,2}} output 1 named "{w}"\nA: 5\noutput 2 named "x{w}y"') for w in names]
    L['C19'] += [t(e) for e in ['output [true div 3 2]', 'A: 3 output [true div A 4] + 1', 'function: f A:n { result: [true div A 2] } output [f d3]', 'A: 1 function: f { A: 2 result: A } output [f] output A', 'function: f A { A: A + 1 result: A } A: 5 output [f A] output A',
                                'loop I over {} { output 1 } output 2', 'loop I over {3..1} { output I } output 5', 'loop I over 2d2 { output I } output 1', 'A: d6 loop I over {A, 7} { output I }', 'if 1 { } else { output 1 } output 2', 'if 0 { output 1 } else if 0 { output 2 } else { output 3 }',
                                'if d2 { output 1 } output 2', 'output d2 named ""', 'output "a" output "a" named "b"', 'output {"a", 1}', 'output d{"a","b","a"}', 'output 2d{"a","b"}', 'set "explode depth" to 3 output [explode d2]', 'output [explode d2] set "explode depth" to 1 output [explode d2]',
                                'set "position order" to "lowest first" output 1 @ 2d2 output {1,2} @ 3d2 output [highest 1 of 2d2]', 'output 1 @ 2d2 set "position order" to "lowest first" output 1 @ 2d2', 'set "maximum function depth" to 2 function: f N:n { result: [f N + 1] } output [f 0]',
                                'function: f N:n { if N > 2 { result: N } result: [f N + 1] + 1 } output [f 0] output [f d3]', 'function: f N:n { if N = 1 { result: 5 } } output [f 1] output [f 2] output [f d2]', 'function: f { output 3 named "in" } output [f]', 'A: 1 B: A A: 2 output B output A',
                                'function: f A:s { loop I over A { if I > 1 { result: I } } result: 0 } output [f 2d3]', 'function: f A:d { result: A + A } output [f d2] output [f {1,2}] output [f 3]', 'function: f A { result: A + A } output [f d2] output [f {1,2}]']]
    return L


def big():
    """totals beyond what a float can hold"""
    d = die((0, 19), (1, 41))
    hs = [at(1, roll(180, d)), {'op': 'mix', 'a': [at(120, roll(180, d)), at(70, roll(200, die((2, 37), (5, 1))))]}, at(100, roll(176, die((1, 30), (2, 29))))]
    return [[{'k': 'big', 'e': e, 'use': 1}] for e in hs]
