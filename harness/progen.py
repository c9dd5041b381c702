"""Random programs of the dice language (inputs only)."""
import gen

RUNOPS = ['safe', 'unsafe']


def glue_ok(a, b):
    """may tokens a and b be written without a space between them?"""
    x, y = a[-1], b[0]
    if x.islower() and y.islower() or x.isdigit() and y.isdigit() or (x.isupper() or x == '_') and (y.isupper() or y == '_'):
        return False
    if x == '.' and y == '.' or x == '!' and y == '=':
        return False
    if x.isdigit() and y == '.' and b != '..' or x == '.' and y.isdigit():
        return True
    return True


COMMENTS = ['\\ note \\', '\\\n two lines\n output 3 \\', '\\\\', '\\ "quoted" {[ \\']


class P(gen.G):
    frac = False        # may the program contain decimals
    opint = False
    dyn = False

    def join(self, toks, tight=0.3, comments=0.03, lines=True):
        out = ''
        for i, t in enumerate(toks):
            if t == '\n':
                out += self.ch(['\n', '\n', '\n\n', ' ', '\t\n ']) if lines else '\n'
                continue
            if i and toks[i - 1] != '\n':
                glue = glue_ok(toks[i - 1], t)
                if not (glue and self.p(tight)):
                    out += self.ch([' ', ' ', ' ', '  ', '\t', '\n']) if self.p(0.15) else ' '
                if self.p(comments):
                    out += self.ch(COMMENTS)
            out += t
        return out

    # ---------------- expressions (token lists) ----------------
    def number(self):
        if self.p(0.01):
            return self.ch(['\u0663', '\uff11\uff12', '1\u0663', '\u096a', '\u06f5', '\uff106'])
        if self.p(0.06):
            return self.ch(['007', '00', '010', '0'])
        if self.p(0.08):
            return self.ch(['35', '12345', '100', '909', '10', '99', '1000', '999', '1001', '10000', '256', '100000', '1000000'])
        return str(self.r.randint(0, 7))

    def small(self, lo=1, hi=4):
        return [str(self.r.randint(lo, hi))]

    def dec(self):
        if self.p(0.04):
            return self.ch([['\u0663', '.', '\u0665'], ['1', '.', '\uff15'], ['\u0967', '.', '25'], ['\u06f0', '.', '0\u0665']])
        return [self.ch(['0', '1', '2', '10', '01']), '.', self.ch(['5', '25', '0', '50', '125', '75', '0625', '00', '03125', '005', '05', '075'])]

    def die(self, sc, depth):
        c = self.r.random()
        if c < 0.35:
            return ['d', *self.ch([['4'], ['6'], ['2'], ['3'], ['{', '1', ',', '1', ',', '2', '}'], ['{', '0', '..', '2', '}'], ['-', '3'], ['(', '-', '2', ')'], ['8'], ['{', '}'], ['0']])]
        if c < 0.75:
            return [*self.ch([['1'], ['2'], ['2'], ['3'], ['-', '2'], ['0'], ['{', '1', ',', '2', '}'], ['(', '1', 'd', '2', ')'], ['#', '{', '5', ',', '5', '}']]), 'd',
                    *self.ch([['4'], ['6'], ['2'], ['3'], ['{', '1', ',', '2', ',', '2', '}'], ['{', '-', '1', '..', '1', '}'], ['(', 'd', '3', ')'], ['{', 'd', '2', ',', '5', '}']])]
        v = self.var(sc, 'd')
        return [v] if v else ['d', '6']

    def seq(self, sc, depth):
        v = self.var(sc, 's')
        if v and self.p(0.4):
            return [v]
        k = self.r.choice([0, 1, 2, 2, 3, 3, 4])
        out = ['{']
        for i in range(k):
            if i:
                out.append(',')
            c = self.r.random()
            if c < 0.2:
                out += [*self.elem(sc, depth), '..', *self.elem(sc, depth)]
            elif c < 0.3 and depth > 0:
                out += self.seq(sc, depth - 1)
            elif c < 0.4:
                out += self.die(sc, depth)
            elif c < 0.5 and depth > 0:
                out += self.expr(sc, depth - 1)
            else:
                out += self.elem(sc, depth)
        return out + ['}']

    def elem(self, sc, depth):
        v = self.var(sc, 'n')
        if v and self.p(0.25):
            return [v]
        return ['-', self.number()] if self.p(0.15) else [str(self.r.randint(0, 7))]

    def var(self, sc, t):
        vs = [x for x, k in sc.vars.items() if k == t]
        return self.ch(vs) if vs else None

    def atom(self, sc, depth):
        c = self.r.random()
        if c < 0.38:
            return [self.number()]
        if c < 0.43:
            return self.dec() if self.frac else [self.number()]
        if c < 0.55:
            v = self.var(sc, self.ch('nnnsd'))
            return [v] if v else [self.number()]
        if c < 0.72:
            return ['(', *self.die(sc, depth), ')'] if self.p(0.3) else self.die(sc, depth)
        if c < 0.8:
            return self.seq(sc, depth)
        if c < 0.9 and depth > 0:
            return ['(', *self.expr(sc, depth - 1), ')']
        if c < 0.97 and depth > 0:
            return self.call(sc, depth - 1)
        return [self.number()]

    def term(self, sc, depth):
        c = self.r.random()
        if 0.16 < c < 0.31 and (self.frac or not self.opint):
            a = self.seq(sc, depth) if 0.22 < c < 0.28 else ['(', *self.die(sc, depth), ')'] if self.p(0.7) else self.seq(sc, depth)
            if c > 0.28:
                return [self.ch('-!'), self.ch('-!'), *a]
        else:
            a = self.atom(sc, depth)
            if c < 0.31 and a[0] == 'd' and self.p(0.9):
                a = ['(', *a, ')']
        if c < 0.12:
            return ['-', *a]
        if c < 0.16:
            return ['+', *a]
        if c < 0.22:
            return ['!', *a]
        if c < 0.28:
            return ['#', *a] if not self.p(0.2) else ['#', self.ch(['9', '10', '99', '100', '999', '1000', '1001', '9999', '10000', '100000', '1000000', '999999999', '0', '007'])]
        if c < 0.31:
            return [self.ch('-!#'), self.ch('-#!'), *a]
        return a

    def op(self):
        c = self.r.random()
        if c < 0.35:
            return [self.ch('+-')]
        if c < 0.55:
            return [self.ch('**/')]
        if c < 0.62:
            return ['^']
        if c < 0.82:
            return self.ch([['='], ['!='], ['<'], ['>'], ['<', '='], ['>', '=']])
        if c < 0.93:
            return [self.ch('&|')]
        return ['@']

    def expr(self, sc, depth):
        out = self.term(sc, depth)
        for _ in range(self.ch([0, 0, 1, 1, 1, 2, 2, 3])):
            o = self.op()
            if o == ['^']:
                out += ['^', *self.small(0, 3)]
                continue
            if o == ['@'] and self.p(0.7):      # select from a sequence or a roll
                out = [*self.ch([['1'], ['2'], ['{', '1', ',', '2', '}'], ['{', '3', ',', '1', '}'], ['5'], ['0']]), '@', *(self.seq(sc, depth) if self.p(0.5) else ['(', *self.die(sc, depth), ')'] if self.p(0.6) else ['4', 'd', '6'])]
                continue
            if o[0] in '&|' and (self.frac or not self.opint) and self.p(0.85):
                out += [*o, '(', *self.die(sc, depth), ')'] if self.p(0.5) else [*o, *self.die(sc, depth), *self.op_cmp(), *self.small(0, 6)]
                continue
            if o == ['@'] and self.p(0.6):
                continue
            out += o + self.term(sc, depth)
        return out

    def nexpr(self, sc, depth=1):
        """an expression that is a number"""
        c = self.r.random()
        v = self.var(sc, 'n')
        if v and c < 0.5:
            a = [v]
        elif c < 0.6 and self.var(sc, 's'):
            a = ['#', self.var(sc, 's')] if self.p(0.5) else [*self.small(), '@', self.var(sc, 's')]
        else:
            a = [str(self.r.randint(0, 9))]
        while self.p(0.35):
            a = [*a, self.ch('+-*'), *([self.var(sc, 'n')] if self.var(sc, 'n') and self.p(0.4) else self.small(0, 5))]
        return a

    def cond(self, sc, depth=1):
        a = [*self.nexpr(sc), *self.op_cmp(), *self.nexpr(sc)]
        if self.p(0.2):
            a = [*a, self.ch('&|'), *self.nexpr(sc), *self.op_cmp(), *self.nexpr(sc)]
        return a

    def op_cmp(self):
        return self.ch([['='], ['!='], ['<'], ['>'], ['<', '='], ['>', '=']])

    # ---------------- calls ----------------
    def call(self, sc, depth, fn=None):
        if fn is None and (not sc.fns or self.p(0.35)):
            return self.libcall(sc, depth)
        fn = fn or self.ch(sc.fns)
        out = ['[']
        for w in fn['sig']:
            if isinstance(w, str):
                out.append(w)
            else:
                out += self.arg(sc, depth, w[1], fn['eff'])
        return out + [']']

    def arg(self, sc, depth, ty, eff):
        if eff:
            a = self.nexpr(sc) if self.p(0.6) else self.small(0, 6)
        else:
            c = self.r.random()
            if c < 0.45:
                a = self.nexpr(sc)
            elif c < 0.65:
                a = self.ch([['d', '3'], ['2', 'd', '3'], ['d', '{', '1', ',', '1', ',', '4', '}'], ['3', 'd', '2'], ['d', '6']]) if not self.var(sc, 'd') or self.p(0.6) else [self.var(sc, 'd')]
            elif c < 0.85:
                a = self.seq(sc, 0)
            elif depth > 0:
                a = self.expr(sc, depth - 1)
            else:
                a = self.small(0, 6)
        # an argument that starts with a sign, or is followed by something, would run into its neighbour
        if len(a) > 1 and (self.p(0.7) or a[0] in '+-' or 'd' in a):
            a = ['(', *a, ')']
        return a

    LIB = [['absolute', 'X'], ['X', 'contains', 'X'], ['count', 'X', 'in', 'X'], ['explode', 'X'], ['highest', 'X', 'of', 'X'], ['lowest', 'X', 'of', 'X'],
           ['middle', 'X', 'of', 'X'], ['highest', 'of', 'X', 'and', 'X'], ['lowest', 'of', 'X', 'and', 'X'], ['maximum', 'of', 'X'], ['reverse', 'X'],
           ['sort', 'X'], ['true', 'div', 'X', 'X']]

    def libcall(self, sc, depth):
        f = self.ch(self.LIB)
        kinds = {'absolute': 'nd', 'contains': 'sn', 'count': 'ns', 'explode': 'd', 'maximum': 'd', 'reverse': 's', 'sort': 's'}
        key = f[0] if f[0] != 'X' else 'contains'
        ks = kinds.get(key) or ('nd' if 'X' == f[1] else 'nn')
        out, j = ['['], 0
        for w in f:
            if w != 'X':
                out.append(w)
                continue
            if 'div' in f and not self.frac:
                return ['[', 'absolute', *self.ch([['-', '2'], ['(', 'd', '{', '-', '2', '..', '1', '}', ')']]), ']']
            k = ks[j % len(ks)]
            j += 1
            if self.p(0.15):
                k = self.ch('nsd')
            if k == 'n':
                a = self.small(1, 3) if not self.p(0.1) else ['d', '3']
            elif k == 's':
                a = self.seq(sc, 0)
            else:
                a = self.ch([['d', '6'], ['2', 'd', '4'], ['3', 'd', '3'], ['4', 'd', '2'], ['d', '{', '1', ',', '3', ',', '3', '}'], ['2', 'd', '{', '0', ',', '2', '}']])
            out += ['(', *a, ')'] if 'd' in a or self.p(0.2) else a
        return out + [']']

    # ---------------- statements ----------------
    NAMES = ['A', 'B', 'X', 'ROLL', 'N', 'SUM', 'D_X', 'Z_', 'S', 'RESULT']

    def newvar(self, sc, t, name=None):
        v = name or self.ch(self.NAMES)
        sc.vars[v] = t
        return v

    def assign(self, sc, t=None):
        t = t or self.ch('nnnsd')
        if t == 'n':
            e = self.nexpr(sc)
        elif t == 's':
            e = self.seq(sc, 1)
        else:
            e = self.die(sc, 1)
            if self.p(0.3):
                e = [*e, self.ch('+-'), *self.small()]
            if '{' in e and e[-2:] == ['{', '}']:
                e = ['d', '6']
        v = self.newvar(sc, t)
        return [v, ':', *e, '\n']

    def name(self, sc):
        out = ''
        for _ in range(self.r.randint(1, 3)):
            c = self.r.random()
            if c < 0.45 and sc.vars:
                out += '[' + self.ch(list(sc.vars)) + ']'
            elif 0.45 <= c < 0.49:
                out += self.ch(['\r', '\x00', '\t', '\x0c', '\x85', '\u2028', 'a\rb', '\x001', '\U0001f3b2', '\x1b', '\ufeff'])
            else:
                out += self.ch(['x', 'Hit 5', ' ', '{a}', '{', '}', '%d %s', "it's", '[low]', '[ A ]', ']', 'd6 + 1', '\\', '\\n', '#@!', 'é', '[', '{{B}}', '$', '[A B]', 'named'])
        return '"' + out + '"'

    def output(self, sc, depth=1):
        c = self.r.random()
        if c < 0.3:
            v = self.var(sc, self.ch('nsd'))
            e = [v] if v else self.nexpr(sc)
        elif c < 0.55 and sc.fns:
            e = self.call(sc, depth)
        else:
            e = self.expr(sc, depth)
        if self.p(0.5):
            return ['output', *e, 'named', self.name(sc), '\n']
        return ['output', *e, '\n']

    def setting(self):
        c = self.r.random()
        if c < 0.3:
            return ['set', '"position order"', 'to', '"' + self.ch(['highest first', 'lowest first', 'lowest first']) + '"', '\n']
        if c < 0.55:
            return ['set', '"explode depth"', 'to', self.ch('1123'), '\n']
        if c < 0.9:
            return ['set', '"maximum function depth"', 'to', self.ch(['1', '2', '3', '4', '5', '12']), '\n']
        return self.ch([['set', '"position order"', 'to', '"highest"', '\n'], ['set', '"explode depth"', 'to', '0', '\n'], ['set', '"RV_TRUNC"', 'to', self.ch(['"true"', '"false"']), '\n'],
                        ['set', '"maximum function depth"', 'to', '-', '1', '\n']])

    def body(self, sc, depth, n, infn, eff):
        out = []
        for _ in range(n):
            out += self.stmt(sc, depth, infn, eff)
        return out

    def stmt(self, sc, depth, infn=False, eff=True):
        c = self.r.random()
        if c < 0.35:
            return self.assign(sc)
        if c < 0.5 and depth > 0:
            v = self.ch(self.NAMES + ['I', 'J', 'K'])
            over = self.seq(sc, 0) if self.p(0.6) else ['{', '1', '..', *self.small(1, 4), '}']
            sub = sc.copy()
            sub.vars[v] = 'n'
            b = self.body(sub, depth - 1, self.r.randint(1, 2), infn, eff)
            sc.maybe(sub)
            return ['loop', v, 'over', *over, '{', '\n', *b, '}', '\n']
        if c < 0.7 and depth > 0:
            out = []
            subs = []
            for i in range(self.ch([1, 1, 2, 3])):
                sub = sc.copy()
                out += (['else'] if i else []) + ['if', *self.cond(sub), '{', '\n', *self.body(sub, depth - 1, self.r.randint(0, 2), infn, eff), '}']
                subs.append(sub)
            if self.p(0.5):
                sub = sc.copy()
                out += ['else', '{', '\n', *self.body(sub, depth - 1, 1, infn, eff), '}']
            return out + ['\n']
        if infn and c < 0.8:
            return ['result', ':', *self.resexpr(sc), '\n']
        if eff and c < 0.93:
            return self.output(sc)
        if eff and c < 0.97:
            return self.setting()
        return self.assign(sc)

    def resexpr(self, sc):
        c = self.r.random()
        if c < 0.5:
            return self.nexpr(sc)
        if c < 0.6:
            return self.seq(sc, 0)
        if c < 0.7:
            return self.ch([['d', '3'], ['2', 'd', '2'], ['d', '{', '}']])
        v = self.var(sc, self.ch('nsd'))
        return [v, *self.ch([['+', '1'], [], ['*', '2']])] if v else ['1']

    WORDS = ['hit', 'roll', 'f', 'of', 'to', 'result', 'plus', 'with', 'g', 'attack', 'over', 'if', 'list', 'sum', 'max', 'in', 'x']

    def function(self, sc, depth=2, names=None):
        """define a function; adds it to the scope"""
        while True:
            sig, ps = [], []
            for _ in range(self.r.randint(1, 4)):
                if self.p(0.5):
                    sig.append(self.ch(self.WORDS))
                else:
                    nm = self.ch(['A', 'B', 'N', 'S', 'X', 'ROLL'])
                    if nm in [p[0] for p in ps] and not self.p(0.3):
                        continue
                    ty = self.ch(['n', 'n', 's', 'd', '', ''])
                    ps.append((nm, ty))
                    sig.append((nm, ty))
            if any(isinstance(w, str) for w in sig):
                break
        eff = self.p(0.3)
        toks = ['function', ':']
        for w in sig:
            toks += [w] if isinstance(w, str) else [w[0], ':', w[1]] if w[1] else [w[0]]
        inner = sc.copy()
        if not self.dyn:
            # names assigned below become local: only parameters and globals never assigned here are safe to read
            inner.vars = {k: v for k, v in sc.vars.items() if self.p(0.5)}
        for nm, ty in ps:
            inner.vars[nm] = {'n': 'n', 's': 's', 'd': 'd', '': 'n' if eff else self.ch('nnd')}[ty]
        rec = {'sig': sig, 'eff': eff}
        toks += ['{', '\n']
        np = [p[0] for p in ps if p[1] == 'n']
        if np and self.p(0.35):          # recursion on a number
            v = self.ch(np)
            toks += ['if', v, '<', *self.ch([['1'], ['2'], ['=', '1']]), '{', '\n', 'result', ':', *self.resexpr(inner), '}', '\n']
            if self.p(0.4):
                toks += self.stmt(inner, 1, True, eff)
            again = ['[']
            for w in sig:
                if isinstance(w, str):
                    again.append(w)
                elif w[0] == v:
                    again += ['(', v, '-', '1', ')'] if self.p(0.8) else [v, '-', '1', ] if w is sig[-1] else ['(', v, '-', '2', ')']
                else:
                    again += [w[0]] if self.p(0.7) else ['2']
            again.append(']')
            toks += ['result', ':', *self.ch([[*again], [v, '+', *again], [*again, '+', '1'], ['{', v, ',', *again, '}'] if not eff else [*again]]), '\n']
        else:
            toks += self.body(inner, 1, self.r.randint(0, 3), True, eff)
            if self.p(0.85):
                toks += ['result', ':', *self.resexpr(inner), '\n']
        toks += ['}', '\n']
        sc.fns.append(rec)
        return toks

    def program(self, nf=None, ns=None, sc=None):
        sc = sc or Scope()
        toks = []
        if self.p(0.5):
            for _ in range(self.r.randint(1, 3)):
                toks += self.assign(sc)
        for _ in range(self.r.randint(0, 3) if nf is None else nf):
            toks += self.function(sc)
            if self.p(0.4):
                toks += self.assign(sc)
        for _ in range(self.r.randint(1, 5) if ns is None else ns):
            toks += self.stmt(sc, 2)
        toks += self.output(sc)
        return toks

    def opts(self, **kw):
        e = {'dyn': self.dyn, 'opint': self.opint, 'strict': True}
        if self.p(0.15):
            e['say'] = 1
        if self.p(0.05):
            e['conf'] = 1
        e.update(kw)
        return e


class Scope:
    def __init__(self):
        self.vars, self.fns = {}, []

    def copy(self):
        s = Scope()
        s.vars, s.fns = dict(self.vars), self.fns
        return s

    def maybe(self, sub):
        """after a loop: its variables may be there"""
        self.vars = {**sub.vars, **self.vars}


def runev(g, text, mode=None, **kw):
    e = {'k': 'run', 's': text, 'mode': mode or g.ch(RUNOPS), **g.opts(**kw)}
    if g.p(0.15):
        e['ret'] = 1
    return e


def start(g):
    p = P(g.r)
    p.opint, p.dyn = p.p(0.5), p.p(0.4)
    p.frac = p.p(0.25)
    return p


# ---------------------------------------------------------------- C18: expressions
def c18(g):
    g = start(g)
    evs = []
    for _ in range(3):
        sc, toks = Scope(), []
        for _ in range(g.r.randint(0, 3)):
            toks += g.assign(sc)
        for _ in range(3):
            toks += ['output', *g.expr(sc, 2), '\n']
        evs += [runev(g, g.join(toks)), {'k': 'reset'}]
    return evs


# ---------------------------------------------------------------- C19: programs
def t_dups(g):
    nm = g.ch(['A', 'X', 'N'])
    ts = [g.ch(['', ':n', ':s', ':d']) for _ in range(g.r.randint(2, 3))]
    other = g.p(0.5)
    args = g.r.sample(['1', '2', '{3,1}', '(d2)', '7', '(2d2)'], len(ts) + 1)
    mid = g.r.randrange(len(ts)) if other else 9
    ps, as_ = [], []
    for i, t in enumerate(ts):
        ps.append(nm + t)
        as_.append(args[i])
        if i == mid:
            ps.append('Q' + g.ch(['', ':n', ':s']))
            as_.append(args[-1])
    body = g.ch([f'result: {nm}', f'result: {nm} + 1', f'result: {nm} * 10' + (' + Q' if other else ''), f'{nm}: {nm} + 1 result: {nm}', f'result: #{{{nm}, 5}}'])
    return f'function: f {" ".join(ps)} {{ {body} }}\noutput [f {" ".join(as_)}]\n'


def t_scope(g):
    v, w = g.r.sample(['X', 'Y', 'S', 'A_B'], 2)
    a, b = g.r.sample(['1', '5', '{1,2}', 'd3', '{}'], 2)
    inner = g.ch([f'{v}: 9', f'result: {v} + 1', f'{v}: {w} result: {v}', f'{v}: {v} + 1', f'{w}: 4 result: {w}', f'loop {v} over {{1..2}} {{ {w}: 3 }}', f'if 1 = 1 {{ {v}: 8 }} result: {v}'])
    par = g.ch(['', f' {v}', f' {w}:n', f' {w}:s', ' P:n'])
    arg = g.ch([' 3', ' (d2)', f' {v}', f' {w}']) if par else ''
    rest = g.ch([f'output {v} output {w}', f'output [f{arg}] output {v}', f'{v}: 7 output [f{arg}] output {v} + 0', f'output {v} named "[{v}] [{w}]"'])
    return f'{v}: {a} {w}: {b}\nfunction: f{par} {{ {inner} }}\noutput [f{arg}] {rest}'


def t_loops(g):
    v, w = g.r.sample(['I', 'J', 'X'], 2)
    sq = g.ch(['{1..3}', '{3,1,2}', '{}', '{2,2}', '{5..4}', '{{1,2},{3}}', '{-1..1}', '{1,d2}', 'Q'])
    body = g.ch([f'T: T * 10 + {v}', f'output {v} named "[{v}]-[T]" T: T + 1', f'{v}: {v} + 1 T: T + {v}', f'Q: {{Q, {v}}} T: T + #Q', f'loop {w} over {{{v}..2}} {{ T: T + {w} }} output T',
                 f'loop {v} over {{7,8}} {{ T: T + {v} }} T: T * 100 + {v}', f'if {v} > 1 {{ T: T + {v} }} else {{ output T }}'])
    end = g.ch(['', f'output {v}', f'output T named "[{v}]"', 'output Q'])
    return f'T: 0 Q: {{1,2}}\nloop {v} over {sq} {{ {body} }}\noutput T {end}'


def t_ifs(g):
    x = g.ch(['0', '1', '2', '3', '{}', '{1}', 'd2', '1d1', '{0}'] if g.p(0.15) else ['0', '1', '2', '3', '4'])
    k = g.r.randint(1, 4)
    out = f'X: {x} R: 100\n'
    for i in range(k):
        out += ('else ' if i else '') + f'if X {g.ch(["=", "<", ">", "<=", ">=", "!="])} {g.r.randint(0, 4)} {{ {g.ch([f"R: R + {i + 1}", f"output {i + 1}", "", f"X: X + 1 R: {i}", f"if R > 99 {{ R: {i + 1} }} else {{ R: 0 }}"])} }} '
    if g.p(0.6):
        out += 'else { R: R + 50 X: 9 }'
    if g.p(0.2):
        out += ' if X { R: R + 1000 }'
    return out + '\noutput R output X'


def t_result(g):
    body = g.ch(['loop I over {1..5} { if I * I > A { result: I } } result: 99', 'if A = 1 { result: 5 } else if A = 2 { result: {1,2} }', 'loop I over {1..A} { result: I } ', 'result: A A: 7 result: A + 1',
                 'if A > 1 { if A > 2 { result: 3 } R: 1 } else { R: 2 } result: R', 'loop I over {3..1} { result: I } result: 0', 'T: 0 loop I over {1..A} { T: T + I if T > 2 { result: T } }', '', 'X: A',
                 'if A < 1 { result: 0 } result: A + [f (A - 1)]', 'if A { result: 1 } result: d2', 'output A named "in [A]" result: A'])
    arg = g.ch(['1', '2', '3', '4', 'd2', 'd3', '2d2', '{1,1}', '{}'])
    use = g.ch(['[f X]', '[f X] + 1', '1d[f X]', '[f X] > 1', '{[f X], 2}', '[f X] * [f 2]', '#[f X]', '[f [f X]]'])
    if 'output A' in body and 'd' in arg:
        arg = '3'
    pre = '' if g.p(0.7) else f'set "maximum function depth" to {g.r.randint(1, 5)}\n'
    return f'{pre}function: f A:n {{ {body} }}\nX: {arg}\noutput {use.replace("X", "(X)") if g.p(0.3) else use}'


def t_alias(g):
    a = g.ch(['{1,2,3}', '5', '2d2', 'd{1,5}', '{2..4}', '{}'])
    ch = g.ch(['A: A + 1', 'A: {A, 4}', 'B: {B, A}', 'A: 2@A', 'A: A = 2', 'A: -A', 'B: B * 2'])
    return f'A: {a} B: A {ch}\noutput A output B output {{A, B}} output A + B named "[A]"'


def t_mutual(g):
    m = g.ch(['', f'set "maximum function depth" to {g.r.randint(1, 6)}\n'])
    a = g.ch(['3', '5', 'd3', '2'])
    return (f'{m}function: odd N:n {{ if N = 0 {{ result: {g.ch(["0", "{}", "d{}"])} }} result: {g.ch(["", "1 + "])}[even N - 1] }}\n'
            f'function: even N:n {{ if N = 0 {{ result: 1 }} result: {g.ch(["", "2 * "])}[odd N - 1] }}\noutput [odd {a}] output [even {a}] named "[X]x"').replace('[X]', '')


THEMES = [t_dups, t_scope, t_scope, t_loops, t_loops, t_ifs, t_result, t_result, t_alias, t_mutual]


def c19(g):
    g = start(g)
    evs = []
    for _ in range(2):
        text = g.join(g.program()) if g.p(0.65) else g.ch(THEMES)(g)
        evs.append(runev(g, text))
        if g.p(0.3):        # the same again, other way of running, under the settings the first run left
            evs.append(runev(g, text))
        if g.p(0.7):
            evs.append({'k': 'reset'})
    return evs


# ---------------------------------------------------------------- C20: what is a program
CHARS = list('$%;~`\'?é\\"{}[]().,:#@!=<>^*/+-|&dAXab_09 \n\t') + ['\r', '\x0b', '\x00', '\u00a0', '“', '\u2028', '..', '!=', '\\ c \\']
TOKENS = ['output', 'function', 'loop', 'over', 'named', 'set', 'to', 'if', 'else', 'result', 'd', 'A', 'B_', 'X', 'f', 'hit', '1', '06', '2.5', '.', '..', ',', ':', '+', '-', '*',
          '/', '^', '=', '!=', '<', '>', '<=', '>=', '&', '|', '!', '#', '@', '(', ')', '{', '}', '[', ']', '"a"', '"[A]"', '"x [B y"', '{1,2}', '[f 1]', 'd6', 'output 1\n', '""']


def mutate(g, toks):
    toks = list(toks)
    for _ in range(g.ch([1, 1, 1, 2, 3])):
        i = g.r.randrange(len(toks)) if toks else 0
        c = g.r.random()
        if not toks or c < 0.25:
            toks.insert(i, g.ch(TOKENS))
        elif c < 0.5:
            del toks[i]
        elif c < 0.7:
            toks[i] = g.ch(TOKENS)
        elif c < 0.8:
            j = g.r.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif c < 0.9:
            toks.insert(i, toks[i])
        else:
            del toks[i:]
    return toks


def short_program(g):
    sc = Scope()
    c = g.r.random()
    if c < 0.4:
        return ['output', *g.expr(sc, 1), '\n']
    if c < 0.7:
        return g.program(nf=1, ns=1, sc=sc)
    return g.program(nf=0, ns=2, sc=sc)


def text20(g):
    c = g.r.random()
    toks = short_program(g)
    if c < 0.15:
        return g.join(toks)
    if c < 0.6:
        return g.join(mutate(g, toks), comments=0.02)
    if c < 0.8:
        t = g.join(toks)
        for _ in range(g.ch([1, 1, 2])):
            i = g.r.randrange(len(t) + 1)
            c = g.r.random()
            t = t[:i] + g.ch(CHARS) + t[i:] if c < 0.5 else t[:i] + t[i + 1:] if c < 0.75 else t[:i] + g.ch(CHARS) + t[i + 1:]
        return t
    if c < 0.97:
        toks = [g.ch(TOKENS) for _ in range(g.r.randint(1, 7))]
        return g.join((['output', '1', '\n'] if g.p(0.6) else []) + toks)
    return g.ch(['', ' ', '\n', '\t \n', '\\ only a comment \\', '\\ open', '"a"', 'A: 1', '\x0b', '\r\n', 'output', '\x0c'])


def c20(g):
    g = start(g)
    evs = []
    for _ in range(5):
        if g.p(0.3):
            g.opint, g.dyn = g.p(0.5), g.p(0.5)
        t = text20(g)
        strict = not g.p(0.15)
        evs.append(runev(g, t, mode='compile', strict=strict))
        if g.p(0.15):
            evs.append({'k': 'pure', 's': t, **g.opts(strict=strict)})
    pure = [e for e in evs if e['k'] == 'pure']
    if pure:
        evs += [dict(e) for e in pure]
    if g.p(0.05):
        f = g.ch([{'COMPILER_FLAG_UNKNOWN': True}, {'dyn': False}, {'COMPILER_FLAG_NON_LOCAL_SCOPE': True, 'COMPILER_FLAG_': None}])
        evs.append({'k': 'option', 's': 'output 1', 'flags': f})
    return evs


# ---------------------------------------------------------------- C21: names
WORDS21 = ['and', 'as', 'assert', 'async', 'await', 'break', 'class', 'continue', 'def', 'del', 'elif', 'except', 'finally', 'for', 'from', 'global', 'import', 'in', 'is', 'lambda',
           'nonlocal', 'not', 'or', 'pass', 'raise', 'return', 'try', 'while', 'with', 'yield', 'match', 'case', 'type', 'output', 'roll', 'myrange', 'range', 'list', 'len', 'vars', 'print',
           'printed', 'exec', 'eval', 'settings', 'math', 'random', 'itertools', 'functools', 'abs', 'sum', 'max', 'min', 'sort', 'reverse', 'explode', 'absolute', 'highest', 'of', 'contains',
           'self', 'cls', 'd', 'dd', 'f', 'x', 'v', 'set', 'to', 'if', 'else', 'loop', 'over', 'result', 'named', 'function', 'str', 'int', 'float', 'isinstance', 'dummy', 'none', 'true', 'id', 'seq', 'rv',
           'getattr', 'setattr', 'dir', 'hash', 'object', 'super', 'property', 'getiter', 'globals', 'locals', 'open', 'input', 'count', 'lowest', 'middle', 'maximum', 'div']
PAIRS21 = [['settings', 'set'], ['get', 'seq'], ['anydice', 'casting'], ['max', 'func', 'depth'], ['my', 'range'], ['f', 'f'], ['true', 'div', 1, 1], ['sort', 1], ['absolute', 1], ['explode', 1],
           [1, 'contains', 1], ['count', 1, 'in', 1], ['highest', 1, 'of', 1], ['lowest', 1, 'of', 1], ['middle', 1, 'of', 1], ['highest', 'of', 1, 'and', 1], ['lowest', 'of', 1, 'and', 1],
           ['maximum', 'of', 1], ['reverse', 1], ['explode', 1, 1], ['absolute', 1, 'x'], [1], [1, 1], [1, 1, 1], ['f'], ['roll'], ['roll', 1], ['output', 1], ['output'], ['f', 'roll'], ['f', 'x']]
LIB21 = [[1 if w == 'X' else w for w in f] for f in P.LIB]
VARS21 = ['T_N', 'T_S', 'T_D', '_X', '__', '_', 'RV', 'X', 'A', 'B', 'VT_N', 'D', 'N', 'S', 'V_X', 'A_', '_A_', 'Q', 'MYRANGE', 'SEQ', 'T_T', 'V', 'VARS', '_T_N']


def c21(g):
    g = start(g)
    evs = []
    for _ in range(2):
        sc, toks, defs = Scope(), [], []
        vs = [g.ch(VARS21) for _ in range(2)]
        long_ = None
        if g.p(0.12):       # long words that differ in one letter
            w, k = [g.ch('abefghknprsw') for _ in range(g.ch([8, 12, 17, 24, 33, 64, 65]))], g.r.random()
            at = len(w) - 1 if k < 0.5 else g.r.randrange(len(w))
            words = [''.join(w[:at] + [c] + w[at + 1:]) for c in 'xyz']
            tail = g.ch([[], [1], [1], [1, 'with'], [1, 'and', 1]])
            turn = iter(words)
            long_ = lambda: [next(turn, 'last')] + tail  # noqa
            shapes = [long_(), long_()]
            for i, sh in enumerate(shapes):
                toks += ['function', ':'] + [('P' if j == 1 else 'R') if y == 1 else y for j, y in enumerate(sh)] + ['{', 'result', ':', str(i + 4), '}', '\n']
            for sh in shapes:
                toks += ['output', '['] + ['2' if y == 1 else y for y in sh] + [']', '\n']
            if g.p(0.5):
                v = 'Q' * g.ch([5, 16, 17, 33, 64])
                toks += [v + 'A', ':', '1', v + 'B', ':', '2', '\n', 'output', v + 'A', '\n', 'output', v + 'B', '\n']
        for v in vs[:2]:
            toks += [v, ':', *g.ch([['3'], ['d', '4'], ['{', '1', ',', '2', '}']]), '\n']
            sc.vars[v] = {'3': 'n', 'd': 'd', '{': 's'}[toks[toks.index(v) + 2]] if False else 'n'
        for _ in range(g.r.randint(1, 3)):
            c = g.r.random()
            if c < 0.5:
                shape = [g.ch(WORDS21) if g.p(0.65) else 1 for _ in range(g.r.randint(1, 3))]
            elif c < 0.92 or long_ is None:
                shape = g.ch(PAIRS21)
            else:
                shape = long_()
            if not shape or shape in defs:
                continue
            toks += ['function', ':']
            ps = []
            for w in shape:
                if w == 1:
                    nm = g.ch(VARS21)
                    ps.append(nm)
                    ty = g.ch(['', '', ':n', ':s', ':d'])
                    toks += [nm, ':', ty[1]] if ty else [nm]
                else:
                    toks.append(w)
            toks += ['{', '\n']
            if g.p(0.3):
                v = g.ch(VARS21)
                toks += [v, ':', *g.ch([[g.ch(ps)] if ps else ['2'], ['5'], ['d', '2']]), '\n']
                ps.append(v)
            if g.p(0.25):
                v = g.ch(VARS21)
                toks += ['loop', v, 'over', '{', '1', '..', '3', '}', '{', '\n', *([g.ch(ps)] if ps else ['Q']), ':', v, '+', '1', '\n', '}', '\n']
            toks += ['result', ':', *g.ch([[g.ch(ps), '+', '1'] if ps else ['7'], [g.ch(ps)] if ps else ['1', 'd', '2'], [g.ch(vs), '+', '1'], ['#', '{', g.ch(ps) if ps else '4', ',', '1', '}']]), '\n', '}', '\n']
            defs.append(shape)
        if not defs:
            continue
        if g.p(0.1):
            vs.append(g.ch(VARS21))      # perhaps never set
        for _ in range(g.r.randint(1, 2)):
            v = g.ch(VARS21)
            toks += [v, ':', *g.ch([['3'], ['d', '4'], ['{', '1', ',', '2', '}']]), '\n']
            vs.append(v)
        extra = g.ch(PAIRS21) if g.p(0.08) else g.ch(LIB21)
        for shape in defs + [extra]:
            call = ['[']
            for w in shape:
                if w == 1:
                    a = g.ch([['1'], ['d', '2'], [g.ch(vs[:2])], [g.ch(vs)], ['{', '1', ',', '2', '}']])
                    call += ['(', *a, ')'] if len(a) > 1 else a
                else:
                    call.append(w)
            call.append(']')
            toks += ['output', *call]
            if g.p(0.4):
                toks += ['named', '"' + g.ch(['[' + g.ch(vs) + ']', 'x {' + g.ch(vs) + '}', '[' + g.ch(vs[:2]) + '] y']) + '"']
            toks.append('\n')
        if g.p(0.5):
            toks += ['loop', g.ch(VARS21), 'over', '{', '1', '..', '2', '}', '{', 'output', g.ch(vs[:2]), '}', '\n']
        toks += ['output', g.ch(vs[:2]), '\n']
        text = g.join(toks)
        evs.append(runev(g, text, strict=not g.p(0.1)))
        evs.append({'k': 'reset'})
        if g.p(0.3):
            g.opint, g.dyn = g.p(0.5), g.p(0.5)
            evs += [runev(g, text), {'k': 'reset'}]
    return evs or [{'k': 'reset'}]


# ---------------------------------------------------------------- texts enumerated by TLC (GenText)
def enum_texts(scripts, r, tier, quick=400):
    g = P(r)
    out = []
    r.shuffle(scripts)
    for t, in scripts[:quick if tier == 'quick' else 6000]:
        g.opint, g.dyn, g.frac = g.p(0.7), g.p(0.3), False
        out.append([runev(g, t)])
    return out
