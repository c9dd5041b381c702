"""Planted bugs: realistic changes that break a property but pass the existing tests (see plant.py)."""
BUGS = []
def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

RV, ROLL, SEQ, DEC, LIB, SET, OUT, STR, BLANK = ('src/randvar.py', 'src/roller.py', 'src/seq.py', 'src/decorators.py', 'src/funclib.py', 'src/settings.py', 'src/output.py', 'src/string_rvs.py', 'src/blackrv.py')
RES, PAR, EXE, UT = 'src/parser/python_resolver.py', 'src/parser/myparser.py', 'src/parser/parse_and_exec.py', 'src/utils.py'

bug('c01-gcd-first', 'C01', [(RV, "      gcd = math.gcd(*probs)\n", "      gcd = math.gcd(*probs[:64]) or math.gcd(*probs)  # a prefix is enough in practice\n")],
    'a die with more than 64 outcomes whose first 64 weights share a divisor the rest do not', 'weights are divided by a number that does not divide them all, changing the distribution',
    '''
from dice_calc import RV
d = RV(range(66), [2] * 64 + [3, 5])
assert d.probs == (2,) * 64 + (3, 5), d.probs
''')

bug('c02-eq-self', 'C02', [(RV, "    return self._convolve(other, lambda x, y: 1 if x == y else 0)\n", "    if other is self:  # trivially equal\n      return RV.from_const(1)\n    return self._convolve(other, lambda x, y: 1 if x == y else 0)\n"),
                           (RV, "    return self._convolve(other, lambda x, y: 1 if x != y else 0)\n", "    return 0 if other is self else self._convolve(other, lambda x, y: 1 if x != y else 0)\n")],
    'a die compared with itself (the same object)', 'two independent rolls of one die count as always equal',
    '''
from dice_calc import RV
d = RV([1, 2], [1, 1])
r = (d == d)
assert r.vals == (0, 1) and r.probs == (1, 1)
''')

bug('c06-repeat', 'C06', [(RV, "  return sum(orig[int(i)] for i in locs)\n", "  return sum(orig[int(i)] for i in sorted(set(locs)))\n")],
    'a position listed twice among several positions of a pool', 'repeated positions are counted once',
    '''
from dice_calc import RV, roll, Seq
r = Seq(1, 1, 2) @ roll(2, 2)
assert dict(zip(r.vals, r.probs)) == {3: 1, 5: 2, 6: 1}, (r.vals, r.probs)
''')


bug('c11-explode-zero', 'C11', [(LIB, "    if depth is None:\n        depth = SETTINGS['explode depth']\n", "    depth = depth or SETTINGS['explode depth']\n")],
    'explode called with an explicit depth of 0', 'no explosion asked for, the default number of explosions happens',
    '''
from dice_calc import roll
from dice_calc.funclib import explode
assert explode(roll(1, 4), depth=0).vals == (1, 2, 3, 4)
''')

bug('c12-words', 'C12', [(SET, "      value = value.lower() == 'true'\n", "      value = value in ('true', 'True')\n")],
    'a true/false option set by the word TRUE in another letter case', 'the option is accepted and switched off',
    '''
from dice_calc import settings_set, settings_reset, RV
settings_set('RV_TRUNC', 'TRUE')
assert RV([1.5], [1]).vals == (1,)
''')

bug('c17-none', 'C17', [(ROLL, "  if count is None:\n", "  if not count:\n")],
    'asking for zero samples', 'one outcome instead of an empty tuple',
    '''
from dice_calc import roll, roller
assert roller(roll(1, 6), 0) == ()
''')

bug('c19-dups', 'C19', [(RES, "    for i in range(N - 1, -1, -1):  # only first is kept\n", "    for i in range(N):  # only one is kept\n")],
    'a function with the same parameter name twice', 'the last argument is bound instead of the first',
    '''
from dice_calc.parser.parse_and_exec import compile_anydice, unsafe_exec
r = unsafe_exec(compile_anydice("function: f A:n A:n { result: A } output [f 1 2]"))
assert r[0][0][0] == 1, r
''')

bug('c20-lexer-cache', 'C20', [(EXE, "  lexer, yaccer = myparser.build_lex_yacc(debug=debug)\n", "  if debug not in _PARSERS:\n    _PARSERS[debug] = myparser.build_lex_yacc(debug=debug)\n  lexer, yaccer = _PARSERS[debug]\n"),
                               (EXE, "logger = logging.getLogger(__name__)\n", "logger = logging.getLogger(__name__)\n_PARSERS = {}  # building the tables is slow\n")],
    'compiling any text after a text with an unclosed string failed', 'the cached lexer starts inside a string: the next program is rejected',
    '''
from dice_calc.parser import compile_anydice
a = compile_anydice('output 1')
try:
  compile_anydice('output 1 named "abc')
except AssertionError:
  pass
assert compile_anydice('output 1') == a
''')

bug('c24-neg', 'C24', [(RV, "      sign = '' if (s * d) >= 0 else '-'\n", "      sign = '-' if s < 0 or d < 0 else ''\n")],
    'a negative number of dice with a negative number of sides', 'the description shows a minus although the signs cancel',
    '''
from dice_calc import roll
assert str(roll(-2, -3)) == '2d3', str(roll(-2, -3))
''')

# ---------------------------------------------------------------- second batch
bug('c01-type-merge', 'C01', [(RV, "      if zipped[i][0] == zipped[i - 1][0]:  # add the two probs, go to next\n", "      if zipped[i][0] == zipped[i - 1][0] and type(zipped[i][0]) is type(zipped[i - 1][0]):  # add the two probs, go to next\n")],
    'the same outcome once as a whole number and once as a fraction (2 and 2.0)', 'equal outcomes are listed twice',
    '''
from dice_calc import RV
d = RV([2, 2.0, 3], [1, 1, 1])
assert d.vals == (2, 3) and d.probs == (2, 1), (d.vals, d.probs)
''')

bug('c02-round', 'C02', [(RV, "    return self._apply_operation(lambda x: round(x, n))\n", "    return self._apply_operation(lambda x: round(x, n) if n > 0 else round(x))\n")],
    'rounding to a negative number of decimals', 'dice are not rounded to tens',
    '''
from dice_calc import RV
assert round(RV([14, 26], [1, 1]), -1).vals == (10, 30)
''')

bug('c02-add-zero', 'C04', [(RV, "    return self._convolve(other, operator.add)\n", "    if isinstance(other, int) and other == 0:\n      return self\n    return self._convolve(other, operator.add)\n")],
    'a pool plus 0', 'the sum still counts as a pool of several dice, so position selection sees the dice',
    '''
from dice_calc import roll
assert len(roll(3, 6) + 0) == 1
assert (1 @ (roll(3, 6) + 0)).vals[-1] == 18
''')

bug('c03-pad', 'C03', [(SEQ, "fillvalue=float('-inf')))", "fillvalue=-10**6))")],
    'comparing sequences of different length with an element of minus a million or less', 'the padding is not below every element',
    '''
from dice_calc import Seq
assert (Seq(2, -10**6) > Seq(1)) == True
''')

bug('c03-wrap', 'C03', [(SEQ, "    return self._seq[i - self._one_indexed] if 0 <= i - self._one_indexed < len(self._seq) else 0\n", "    return self._seq[i - self._one_indexed] if self._one_indexed - len(self._seq) <= i - self._one_indexed < len(self._seq) and i else 0\n")],
    'selecting a negative position of a sequence', 'a negative position reads from the end instead of giving 0',
    '''
from dice_calc import Seq
assert -1 @ Seq(4, 5, 6) == 0
''')

bug('c04-ceil', 'C04', [(ROLL, "    n = math.ceil(n)\n", "    n = math.floor(n) + 1\n")],
    'a whole number given as a float for the number of dice', 'one die too many is rolled',
    '''
from dice_calc import roll
assert roll(2.0, 6).vals == roll(2, 6).vals
''')

bug('c04-const-count', 'C04', [(ROLL, "    dies = tuple(roll(int(v), d) for v in n.vals)\n", "    if len(n.vals) == 1:\n      return roll(int(n.vals[0]), d)\n    dies = tuple(roll(int(v), d) for v in n.vals)\n")],
    'a die that always shows one number used as the number of dice', 'the result counts as a pool',
    '''
from dice_calc import roll, RV
assert len(roll(RV([3], [1]), 6)) == 1
''')

bug('c05-lcm', 'C05', [(RV, "    PROD = math.prod(prob_sums)", "    PROD = max(prob_sums) if all(max(prob_sums) % s == 0 for s in prob_sums[:8]) else math.prod(prob_sums)")],
    'more than eight components, the first eight of which have weight sums dividing the largest', 'later components get too little weight',
    '''
from dice_calc import RV, roll
from dice_calc.factory import merge_rvs
r = merge_rvs([roll(12)] * 8 + [roll(7)])
p = dict(zip(r.vals, r.probs))
assert 13 * 0 + p[12] * 9 * 12 == sum(r.probs) * 8, r.probs
''')

bug('c06-same', 'C06', [(RV, "    if len(other) == 1:  # only one index, return the value at that index\n", "    if len(set(other)) == 1:  # only one index, return the value at that index\n")],
    'one position given several times, as {1, 1}@3d6', 'the die counts once instead of twice',
    '''
from dice_calc import Seq, roll
assert (Seq(1, 1) @ roll(2, 2)).vals == (2, 4)
''')

bug('c06-cache', 'C06', [(RV, "      return self._source_die._get_kth_order_statistic(self._source_roll, k)\n", "      cache = self._source_die.__dict__.setdefault('_kth', {})\n      if (self._source_roll, k) not in cache:\n        cache[self._source_roll, k] = self._source_die._get_kth_order_statistic(self._source_roll, k)\n      return cache[self._source_roll, k]\n")],
    'selecting the same position of one pool before and after changing the position order', 'the selection made under the other order is returned',
    '''
from dice_calc import roll, settings_set
d = roll(3, 6)
a = 1 @ d
settings_set('position order', 'lowest first')
b = 1 @ d
assert a.probs != b.probs
''')

bug('c07-zero', 'C07', [(DEC, "        prob = math.prod(p for _, p in rolls_and_prob)\n", "        prob = math.prod(p for _, p in rolls_and_prob)\n        if prob == 0:  # cannot happen\n          continue\n")],
    'a die with an outcome of weight 0 split over a function', 'the function is not called for that outcome and its result is missing from the listing',
    '''
from dice_calc import RV
from dice_calc.decorators import anydice_casting
from dice_calc.typings import T_N
@anydice_casting()
def f(a: T_N):
  return a * 2
assert f(RV([1, 2], [1, 0])).vals == (2, 4)
''')

bug('c07-kwdie', 'C07', [(DEC, "        arg_name = k if isinstance(k, str) else (arg_names[k] if k < len(arg_names) else None)  # get the name of the parameter (args or kwargs)\n", "        arg_name = k if k in arg_names else (arg_names[k] if isinstance(k, int) and k < len(arg_names) else None)  # get the name of the parameter (args or kwargs)\n")],
    'a keyword-only parameter with a declared type', 'the argument arrives uncast',
    '''
from dice_calc import roll, Seq
from dice_calc.decorators import anydice_casting
from dice_calc.typings import T_N
@anydice_casting()
def f(*, a: T_N):
  return type(a).__name__
assert f(a=Seq(1, 2)) == 'int'
''')

bug('c09-sub-seq', 'C09', [(BLANK, "    if isinstance(other, Iterable):\n      other = factory.get_seq(*other).sum()\n", "    if isinstance(other, (list, tuple, range)):\n      other = factory.get_seq(*other).sum()\n")],
    'a blank minus a sequence', 'fails instead of giving minus the sum',
    '''
from dice_calc import Seq, roll
assert roll(Seq()) - Seq(1, 2) == -3
''')

bug('c09-cast', 'C09', [(DEC, "            return blackrv.BlankRV(_special_null=True)\n", "            return blackrv.BlankRV(_special_null=expected_type == T_N)\n")],
    'a blank given to a parameter expecting a sequence', 'the wrong kind of blank comes back',
    '''
from dice_calc import Seq, roll
from dice_calc.funclib import reverse
assert len(reverse(roll(Seq()))) == 1
''')

bug('c10-eq', 'C10', [(DEC, "      if SETTINGS['INTERNAL_CURR_DEPTH'] >= SETTINGS['maximum function depth']:\n", "      if SETTINGS['INTERNAL_CURR_DEPTH'] == SETTINGS['maximum function depth']:\n")],
    'the maximum depth lowered below the current depth by a running function', 'calls made after that are executed without any limit',
    '''
from dice_calc import settings_set
from dice_calc.decorators import anydice_casting
ran = []
@anydice_casting()
def g():
  ran.append(1)
  return 1
@anydice_casting()
def f(n):
  if n:
    return f(n - 1)
  settings_set('maximum function depth', 1)
  return g()
f(2)
assert not ran
''')

bug('c10-set', 'C10', [(SET, "    assert isinstance(value, int) and value > 0, '\"maximum function depth\" can only be set to a positive integer (the default is 10) got ' + str(value)\n", "    assert isinstance(value, int) and value > 0, '\"maximum function depth\" can only be set to a positive integer (the default is 10) got ' + str(value)\n    SETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED'] = False  # warn about the new limit\n")],
    'the maximum depth set again after a truncation', 'the truncation message is shown a second time without a reset',
    '''
import io, contextlib
from dice_calc import settings_set
from dice_calc.decorators import anydice_casting
@anydice_casting()
def f(n):
  return f(n)
b = io.StringIO()
with contextlib.redirect_stdout(b):
  f(1); settings_set('maximum function depth', 3); f(1)
assert b.getvalue().count('exceeded') == 1
''')

bug('c11-pool-explode', 'C11', [(LIB, "    MAX = maximum_of(DIE)\n", "    MAX = len(DIE) * maximum_of(1 @ DIE)\n")],
    'exploding a pool under... a pool whose highest total is not its size times the highest face: dice of negative faces are fine, selected positions beyond are not', 'x',
    '''
raise SystemExit(1)
''')
BUGS.pop()

bug('c12-store-first', 'C12', [(SET, "  elif name == \"explode depth\":\n", "  elif name == \"explode depth\":\n    SETTINGS[name] = value if isinstance(value, int) else DEFAULT_SETTINGS[name]\n")],
    'an invalid explode depth such as 0 rejected while the rejection is caught', 'the rejected value stays in force',
    '''
from dice_calc import settings_set, roll
from dice_calc.funclib import explode
settings_set('explode depth', 3)
try:
  settings_set('explode depth', 0)
except AssertionError:
  pass
assert explode(roll(1, 2)).vals[-1] == 8
''')

bug('c12-reset-fn', 'C12', [(SET, "  SETTINGS.clear()\n  SETTINGS.update(DEFAULT_SETTINGS)\n", "  SETTINGS.update({k: v for k, v in DEFAULT_SETTINGS.items() if not callable(v)})\n")],
    'settings reset after the default print function was changed', 'the print function stays',
    '''
from dice_calc import settings_set, settings_reset, roll
got = []
settings_set('DEFAULT_PRINT_FN', got.append)
settings_reset()
from dice_calc.output import output
output(roll(6))
assert not got
''')

bug('c13-limit-operand', 'C13', [(RV, "    new_vals, new_probs = _rdict.fast_convolve(", "    _INTERNAL_PROB_LIMIT_VALS(self)  # keep the products small\n    new_vals, new_probs = _rdict.fast_convolve(")],
    'an operator between two dice, the left one built from weights summing to more than 1e31', 'the left die itself is changed',
    '''
from dice_calc import RV
d = RV([1, 2], [10**32 + 1, 7])
p = d.probs
d + RV([1, 2], [1, 1])
assert d.probs == p
''')

bug('c14-mean', 'C14', [(RV, "    return sum(v * p for v, p in zip(self.vals, self.probs)) / self._get_sum_probs()\n", "    if hash(self) not in _MEANS:\n      _MEANS[hash(self)] = sum(v * p for v, p in zip(self.vals, self.probs)) / self._get_sum_probs()\n    return _MEANS[hash(self)]\n"),
                        (RV, "logger = logging.getLogger(__name__)\n", "logger = logging.getLogger(__name__)\n_MEANS = {}\n")],
    'the mean of two dice whose hashes are equal, such as the constants -1 and -2', 'the mean of the first is returned for the second',
    '''
from dice_calc import RV
a, b = RV([-1, 3], [1, 1]).mean(), RV([-2, 3], [1, 1]).mean()
assert (a, b) == (1, 0.5)
''')

bug('c15-filter-nested', 'C15', [(RV, "    to_filter = set(factory.get_seq(obj))\n", "    to_filter = set(obj) if isinstance(obj, (list, tuple, range)) else set(factory.get_seq(obj))\n")],
    'filtering by a list that contains a range, a list or a sequence', 'the nested outcomes are not removed',
    '''
from dice_calc import RV, roll
assert roll(6).filter([1, range(3, 7)]).vals == (2,)
''')

bug('c16-named', 'C16', [(OUT, "  rv = factory.get_rv(rv)\n\n  result = ''\n  if named is not None:\n", "  rv = factory.get_rv(rv)\n\n  result = ''\n  if named:\n")],
    'printing with an empty name', 'the first line does not start with the (empty) name and its space',
    '''
from dice_calc import output, roll
assert output(roll(6), named='', print_=False).startswith(' 3.5')
''')

bug('c16-cut-width', 'C16', [(OUT, "    max_val_len = max(len(str(v)) for v, _ in vp)\n", "    max_val_len = max(len(str(v)) for v in rv.vals)\n")],
    'printing with a cut-off that removes the widest outcomes', 'rows are aligned to outcomes that are not shown and bars are shorter',
    '''
from dice_calc import output, RV
t = output(RV([1, 2, 100000], [50, 50, 1]), print_=False, cdf_cut=2)
assert '\\n1: ' in t, t
''')

bug('c16-blank-print', 'C16', [(OUT, "    result += named + ' '\n  result += '\\n' + '-' * (blocks_width + 8)\n  if print_:\n    if print_fn is None:\n      SETTINGS['DEFAULT_PRINT_FN'](result)\n", "    result += named + ' '\n  result += '\\n' + '-' * (blocks_width + 8)\n  if print_:\n    if print_fn is None:\n      print(result)\n")],
    'printing a blank with a configured print function', 'the text goes to the screen instead',
    '''
from dice_calc import output, roll, settings_set, Seq
got = []
settings_set('DEFAULT_PRINT_FN', got.append)
output(roll(Seq()))
assert len(got) == 1
''')

bug('c17-uniform', 'C17', [(ROLL, "  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))\n", "  if len(set(rv.probs) - {0}) == 1:  # uniform\n    return tuple(random.choice(rv.vals) for _ in range(count))\n  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))\n")],
    'several samples of a die whose outcomes are equally likely except for one of weight 0', 'the impossible outcome is drawn',
    '''
from dice_calc import roller, RV
assert 3 not in roller(RV([1, 2, 3], [1, 1, 0]), 500)
''')

bug('c18-decimal', 'C18', [(RES, "            return f'{val1}.{val2}'\n", "            return f'{int(val1)}.{int(val2)}'  # python does not allow leading zeros\n")],
    'a decimal number with zeros right after the point', '1.05 means 1.5',
    '''
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
assert unsafe_exec(compile_anydice('output 1.05'))[0][0][0] == 1.05
''')

bug('c18-len-log', 'C18', [(UT, "        return len(str(abs(a)))\n", "        return int(math.log(abs(a), 10)) + 1 if a else 1\n"), (UT, "from typing import Iterable, TypeVar, Union\n", "import math\nfrom typing import Iterable, TypeVar, Union\n")],
    'the number of digits of 1000', 'three digits are counted',
    '''
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
assert unsafe_exec(compile_anydice('output #1000', {'COMPILER_FLAG_OPERATOR_ON_INT': True}))[0][0][0] == 4
''')

bug('c19-lib-leak', 'C19', [(EXE, "def _get_lib():\n", "@lru_cache(maxsize=None)\ndef _get_lib():\n"), (EXE, "import logging\nfrom . import myparser\n", "import logging\nfrom functools import lru_cache\nfrom . import myparser\n"),
                            (EXE, "  g = {\n    **_get_lib(),\n    'output': lambda *args, **kwargs: all_outputs.append((args, kwargs)),\n    **(global_vars or {})}\n", "  g = _get_lib()\n  g.update(output=lambda *args, **kwargs: all_outputs.append((args, kwargs)), **(global_vars or {}))\n")],
    'two programs run one after the other, the first defining a function or variable that the second uses without defining it', 'the second program sees the first one\'s functions and variables',
    '''
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
unsafe_exec(compile_anydice('function: absolute A:n { result: 7 } output [absolute 3]'))
assert unsafe_exec(compile_anydice('output [absolute 3]'))[0][0][0] == 3
''')

bug('c20-flag-false', 'C20', [(RES, "        assert not flags, f'Unknown flags: {flags}'\n", "        assert not any(flags.values()), f'Unknown flags: {flags}'\n")],
    'an unknown flag that is switched off', 'it is accepted',
    '''
from dice_calc.parser import compile_anydice
try:
  compile_anydice('output 1', {'COMPILER_FLAG_OPERATOR_ON_INTS': False})
except AssertionError:
  pass
else:
  raise SystemExit('accepted')
''')

bug('c21-collapse', 'C21', [(RES, "                    func_args.append(f'{py_var(arg_name)}: {arg_dtype}')\n                    func_arg_names.append(arg_name)\n                    func_name.append('X')\n", "                    func_args.append(f'{py_var(arg_name)}: {arg_dtype}')\n                    func_arg_names.append(arg_name)\n                    func_name.append('X')\n            func_name = [x for i, x in enumerate(func_name) if x != 'X' or func_name[max(0, i - 2):i] != ['X', 'X']]  # shorter names\n"),
                            (RES, "            name = self._get_python_func_name(name)\n            self._called", "            name = self._get_python_func_name([x for i, x in enumerate(name) if x != 'X' or name[max(0, i - 2):i] != ['X', 'X']])\n            self._called")],
    'two functions differing only in the number of three or more adjacent parameters', 'calls to one reach the other',
    '''
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
r = unsafe_exec(compile_anydice('function: f A B C { result: 3 } function: f A B C D { result: 4 } output [f 1 2 3] output [f 1 2 3 4]'))
assert [x[0][0] for x in r] == [3, 4]
''')

bug('c22-zero', 'C22', [(STR, "      other = StringVal.from_const(other)\n", "      if other == 0 and _CONST_COEF in self.data:\n        other = -self.data[_CONST_COEF] + self.data[_CONST_COEF]\n      other = StringVal.from_const(other)\n")],
    'x', 'x', 'raise SystemExit(1)')
BUGS.pop()

bug('c22-inf', 'C22', [(STR, "      return operator(float('inf'), other)\n", "      return operator(10**6, other)\n")],
    'a text compared or sorted with a number above a million', 'the text comes below the number',
    '''
from dice_calc.string_rvs import StringVal
assert StringVal.from_str('a') > 10**7
''')

bug('c23-kth-float', 'C23', [(RV, "    res_prob = [get_x(xi, k) for xi in range(len(self.vals))]\n", "    if N > 90:  # exact weights get too long\n      scale = 10**9\n      p1, p2, p3 = (tuple(p * scale // sum_probs for p in ps) for ps in (p1, p2, p3))\n    res_prob = [max(0, get_x(xi, k)) for xi in range(len(self.vals))]\n")],
    'a position of a pool of more than 90 dice whose faces are not round decimal fractions', 'probabilities are off in the seventh digit',
    '''
from dice_calc import roll
from fractions import Fraction
d = roll(99, 7)
r = 50 @ d
p = dict(zip(r.vals, r.probs))
from math import comb
q = sum(Fraction(comb(99, j) * 4**j * 3**(99 - j), 7**99) for j in range(50, 100)) - sum(Fraction(comb(99, j) * 3**j * 4**(99 - j), 7**99) for j in range(50, 100))
assert abs(p[4] / sum(r.probs) - q) < 1e-9, abs(p[4] / sum(r.probs) - float(q))
''')

bug('c24-sign', 'C24', [(RV, "    return LHS + 'd{?}'\n", "    return ('-' if s < 0 and LHS else '') + LHS + 'd{?}'\n")],
    'a negative number of dice that are not plain', 'a minus is shown',
    '''
from dice_calc import roll, Seq
assert str(roll(-2, Seq(1, 5))) == '2d{?}', str(roll(-2, Seq(1, 5)))
''')

# ---------------------------------------------------------------- third batch
bug('c01-trunc-off', 'C01', [(RV, "    if truncate or (truncate is None and SETTINGS['RV_TRUNC']):\n", "    if truncate or SETTINGS['RV_TRUNC']:\n")],
    'a die built with truncate=False while the truncation setting is on', 'its fractions are cut although it was asked not to',
    '''
from dice_calc import RV, settings_set
settings_set('RV_TRUNC', True)
assert RV([1.5, 2], [1, 1], truncate=False).vals == (1.5, 2)
''')

bug('c02-over-one', 'C02', [(RV, "    return self._convolve(other, operator.floordiv)\n", "    if isinstance(other, int) and other == 1:\n      return self\n    return self._convolve(other, operator.floordiv)\n")],
    'a die with fractional outcomes divided by 1, rounding down', 'the fractions stay',
    '''
from dice_calc import RV
assert (RV([1.5, 2], [1, 1]) // 1).vals == (1, 2)
''')

bug('c03-cancel', 'C03', [(SEQ, "    return 1 if self.sum() == 0 else 0\n", "    return 0 if any(self._seq) else 1\n")],
    'not of a sequence whose elements cancel', 'it counts as true',
    '''
from dice_calc import Seq
assert ~Seq(1, -1) == 1
''')

bug('c04-neg-ceil', 'C04', [(ROLL, "    n = math.ceil(n)\n", "    n = int(math.copysign(math.ceil(abs(n)), n))\n")],
    'a negative fraction as the number of dice', 'it is rounded away from zero instead of up',
    '''
from dice_calc import roll
assert roll(-1.5, 6).vals == (-6, -5, -4, -3, -2, -1)
''')

bug('c05-zero-weight', 'C05', [(RV, "    blank_inds = set(i for i, x in enumerate(rvs) if isinstance(x, blackrv.BlankRV) or x is None)\n", "    blank_inds = set(i for i, x in enumerate(rvs) if isinstance(x, blackrv.BlankRV) or x is None or weights[i] == 0)\n")],
    'a mixture with a component of weight 0', 'its outcomes are missing from the listing (and a mixture of nothing else is a blank)',
    '''
from dice_calc import roll
from dice_calc.factory import merge_rvs
r = merge_rvs([roll(2), 7], [1, 0])
assert r.vals == (1, 2, 7) and r.probs == (1, 1, 0)
''')

bug('c07-constant', 'C07', [(DEC, "      return merge_rvs(rvs=res_vals, weights=res_probs)\n", "      return merge_rvs(rvs=res_vals, weights=res_probs) if len(res_vals) > 1 else res_vals[0]\n")],
    'a die with a single outcome given to a number parameter', 'a plain number (or nothing at all) comes back instead of a die (or a blank)',
    '''
from dice_calc import RV
from dice_calc.decorators import anydice_type_casting
from dice_calc.typings import T_N
@anydice_type_casting()
def f(a: T_N):
  return a + 1
assert f(RV([3], [1])).vals == (4,)
''')

bug('c08-uniform', 'C08', [(RV, "      for v in roll:\n        cur_roll_probs *= pdf_dict[v]\n", "      for v in roll:\n        if not uniform:\n          cur_roll_probs *= pdf_dict[v]\n"),
                           (RV, "    FACTORIAL_N = utils.factorial(N)\n", "    FACTORIAL_N = utils.factorial(N)\n    uniform = len(set(p for p in D.probs if p)) == 1  # then all the products are the same\n")],
    'a pool of dice that are fair except for a face of weight 0 given to a sequence parameter', 'rolls with the impossible face count',
    '''
from dice_calc import RV, roll
from dice_calc.decorators import anydice_type_casting
from dice_calc.typings import T_S
@anydice_type_casting()
def f(a: T_S):
  return a.sum()
r = f(roll(2, RV([1, 2, 3], [1, 1, 0])))
assert dict(zip(r.vals, r.probs))[6] == 0
''')

bug('c09-both', 'C09', [(ROLL, "  if isinstance(d, blackrv.BlankRV):  # SPECIAL CASE: XdY where Y is BlankRV => BlankRV\n    return blackrv.BlankRV()\n  if isinstance(n, blackrv.BlankRV):  # SPECIAL CASE: XdY where X is BlankRV => Special BlankRV see https://anydice.com/program/395da\n    return blackrv.BlankRV(_special_null=True)\n",
                               "  if isinstance(n, blackrv.BlankRV):  # SPECIAL CASE: XdY where X is BlankRV => Special BlankRV see https://anydice.com/program/395da\n    return blackrv.BlankRV(_special_null=True)\n  if isinstance(d, blackrv.BlankRV):  # SPECIAL CASE: XdY where Y is BlankRV => BlankRV\n    return blackrv.BlankRV()\n")],
    'rolling a blank number of blanks', 'the other kind of blank comes back',
    '''
from dice_calc import BlankRV, roll
assert len(roll(BlankRV(), BlankRV())) == 0
''')

bug('c11-gwf', 'C11', [(LIB, "def _gwf_helper(roll_1: T_N, dmg_die: T_D, min_to_reroll: T_N, *args, **kwargs):\n", "def _gwf_helper(roll_1: T_N, dmg_die: T_D, min_to_reroll, *args, **kwargs):\n")],
    're-rolling low damage dice with a sequence or a die as the threshold', 'the threshold is not cast to a number',
    '''
from dice_calc import Seq
from dice_calc.funclib import gwf
assert gwf(1, 6, Seq(1, 1)).probs == gwf(1, 6, 2).probs
''')

bug('c12-part', 'C12', [(SET, '    assert value in ("highest first", "lowest first"), ', '    assert value in "highest first, lowest first", ')],
    'the position order set to a part of the valid words', 'it is accepted',
    '''
from dice_calc import settings_set
try:
  settings_set('position order', 'first')
except AssertionError:
  raise SystemExit(0)
raise SystemExit(1)
''')

bug('c13-one-die', 'C13', [(ROLL, "  if n == 1:\n    return d\n", "  if n == 1:\n    if d._source_roll != 1 and d._source_die is not d and len(d.vals) == 1:\n      d.set_source(1, d)  # always the same\n    return d\n")],
    'one roll of a pool that has a single outcome, such as 3d{2}', 'the pool itself forgets how many dice it holds',
    '''
from dice_calc import RV, roll
p = roll(3, RV([2], [1]))
roll(1, p)
assert len(p) == 3
''')

bug('c14-roll-memo', 'C14', [(ROLL, '  if isinstance(n, str):  # either rolL(\'ndm\') or roll(\'dm\')\n', '  if isinstance(n, (int, float)) and isinstance(d, (int, float)):\n    if (n, d) not in _SIMPLE:\n      _SIMPLE[n, d] = roll(n, factory.get_seq(d) if isinstance(d, float) else RV.from_seq(range(1, d + 1)) if d > 0 else roll(d))\n      _SIMPLE[n, d]._str_LHS_RHS = (math.ceil(n), d if isinstance(d, int) else \'{?}\')\n    return copy.copy(_SIMPLE[n, d])\n  if isinstance(n, str):  # either rolL(\'ndm\') or roll(\'dm\')\n'),
                             (ROLL, "_MEMOIZED_ROLLS = {}\n", "_MEMOIZED_ROLLS = {}\n_SIMPLE = {}\n")],
    'rolling dice of 6 sides after rolling dice whose only face is 6.0', 'the earlier roll comes back',
    '''
from dice_calc import roll
a = roll(2, 6)
assert roll(2, 6.0).vals == (12,)
''')

bug('c16-narrow', 'C16', [(OUT, "    blocks = max(0, blocks_width - max_val_len)\n", "    blocks = max(1, blocks_width - max_val_len)\n")],
    'printing with a width no larger than the outcomes', 'bars appear although there is no room',
    '''
from dice_calc import output, RV
assert '\\u2588' not in output(RV([1000], [1]), blocks_width=2, print_=False)
''')

bug('c17-deck', 'C17', [(ROLL, "  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))\n", "  if count == rv._get_sum_probs() and count <= 100:  # as from a deck\n    deck = [v for v, p in zip(rv.vals, rv.probs) for _ in range(p)]\n    random.shuffle(deck)\n    return tuple(deck)\n  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))\n")],
    'asking for exactly as many samples as the total weight of the die', 'the samples are not independent: every outcome comes exactly as often as its weight',
    '''
from dice_calc import roll, roller
assert any(len(set(roller(roll(6), 6))) < 6 for _ in range(50))
''')

bug('c18-descend', 'C18', [(ROLL, "    return range(int(left), int(right) + 1)\n", "    return range(int(left), int(right) + 1) if int(left) <= int(right) + 1 else range(int(left), int(right) - 1, -1)\n")],
    'a range that ends more than one below its start', 'it counts down instead of being empty',
    '''
from dice_calc import Seq, myrange
assert len(Seq(myrange(5, 2))) == 0
''')

bug('c20-recover', 'C20', [(EXE, "  assert not lexer.YACC_ILLEGALs and yacc_ret is not None, ", "  assert yacc_ret is not None, ")],
    'junk before a program that is fine by itself', 'the parser skips the junk and the text is accepted',
    '''
from dice_calc.parser import compile_anydice
for t in (') output 1', '1 output 1', '+ output 1', 'output output 1', 'X output 1', 'to output 1', '} output 1'):
  try:
    compile_anydice(t)
  except AssertionError:
    continue
  raise SystemExit('accepted: ' + t)
''')

bug('c20-comment-lines', 'C20', [(PAR, "    r'\\\\(.|\\n)*?\\\\'\n", "    r'\\\\[^\\\\]*(\\n(?![ \\t]*(output|set|loop))[^\\\\]*)*\\\\'\n")], 'x', 'x', 'raise SystemExit(1)')
BUGS.pop()

bug('c22-dash', 'C22', [(STR, "r'^-?\\d+(\\.\\d+)?$'", "r'^-?\\d*(\\.\\d+)?$'")],
    'a listing of the text "-" (or ".5")', 'texts that do not read as numbers are quoted',
    '''
from dice_calc.string_rvs import StringVal
assert not StringVal.from_str('-').is_number()
''')

bug('c23-coarse', 'C23', [(RV, "  normalizing_const = int(10e10) * (sum_ // int(sum_limit))\n", "  normalizing_const = int(10e20) * (sum_ // int(sum_limit))\n")],
    'weights beyond the limit spread over several hundred outcomes', 'probabilities lose too many digits',
    '''
from dice_calc import roll
from fractions import Fraction
d = roll(200, 20)
c = {0: 1}
f = {0: 1}
p, base, n = None, {i: 1 for i in range(1, 21)}, 200
import math
def conv(a, b):
  r = {}
  for x, p in a.items():
    for y, q in b.items():
      r[x + y] = r.get(x + y, 0) + p * q
  return r
def power(b, n):
  if n == 1: return b
  h = power(b, n // 2)
  h = conv(h, h)
  return conv(h, b) if n % 2 else h
e = power(base, n)
t = 20 ** 200
s = sum(d.probs)
assert max(abs(q / s - e[v] / t) for v, q in zip(d.vals, d.probs)) < 1e-9, max(abs(q / s - e[v] / t) for v, q in zip(d.vals, d.probs))
''')

bug('c24-minus-one', 'C24', [(ROLL, "if _d_LHS == 1 and isinstance(_d_RHS, int)", "if _d_LHS in (1, -1) and isinstance(_d_RHS, int)")],
    'rolling dice that are themselves minus one die of plain sides', 'they are described as plain dice',
    '''
from dice_calc import roll
assert str(roll(2, roll(-1, 6))) == '2d{?}', str(roll(2, roll(-1, 6)))
''')

bug('c06-all', 'C06', [(RV, "    if SETTINGS['position order'] == 'lowest first':  # _sum_at", "    if set(other._seq) == set(range(1, self._source_roll + 1)):  # every die of the pool\n      return RV(self.vals, self.probs)\n    if SETTINGS['position order'] == 'lowest first':  # _sum_at")],
    'all the positions of a pool, one of them repeated', 'the repeated die counts once',
    '''
from dice_calc import Seq, roll
assert (Seq(1, 2, 2) @ roll(2, 2)).vals == (3, 4, 6)
''')

bug('c10-latched', 'C10', [(DEC, "      if SETTINGS['INTERNAL_CURR_DEPTH'] >= SETTINGS['maximum function depth']:\n", "      if SETTINGS['INTERNAL_CURR_DEPTH'] == 0:  # the limit holds for the whole call\n        _LIMIT[0] = SETTINGS['maximum function depth']\n      if SETTINGS['INTERNAL_CURR_DEPTH'] >= _LIMIT[0]:\n"),
                           (DEC, "def max_func_depth():\n", "_LIMIT = [0]\n\n\ndef max_func_depth():\n")],
    'the maximum depth changed by a running function', 'the new limit only counts from the next outermost call',
    '''
from dice_calc import settings_set
from dice_calc.decorators import anydice_casting
ran = []
@anydice_casting()
def g(n):
  ran.append(n)
  return g(n - 1) if n else 0
@anydice_casting()
def f():
  settings_set('maximum function depth', 30)
  return g(20)
f()
assert len(ran) == 21, ran
''')

bug('c15-filter-zero', 'C15', [(RV, "    to_filter = set(factory.get_seq(obj))\n", "    to_filter = set(v for v, p in zip(obj.vals, obj.probs) if p) if isinstance(obj, RV) else set(factory.get_seq(obj))\n")],
    'filtering by a die one of whose outcomes has weight 0', 'that outcome stays',
    '''
from dice_calc import RV, roll
assert roll(3).filter(RV([1, 2], [1, 0])).vals == (3,)
''')

bug('c21-long-words', 'C21', [(RES, "                if isinstance(x, str):\n                    func_name.append(x)\n", "                if isinstance(x, str):\n                    func_name.append(x[:16])  # keep the code readable\n"),
                              (RES, "                elif isinstance(x, str):\n                    name.append(x)\n", "                elif isinstance(x, str):\n                    name.append(x[:16])\n")],
    'two functions whose names differ only after the 16th letter of a word', 'calls to one reach the other',
    '''
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
a, b = 'f' * 16 + 'a', 'f' * 16 + 'b'
r = unsafe_exec(compile_anydice('function: %s { result: 1 } function: %s { result: 2 } output [%s]' % (a, b, a)))
assert r[0][0][0] == 1
''')

bug('c22-case', 'C22', [(STR, "          return operator(self.keys[i], other.keys[i])\n", "          return operator(self.keys[i].lower(), other.keys[i].lower())\n")],
    'two texts that differ only in the case of their letters', 'neither comes before the other, so which order they are listed in depends on how they were given',
    '''
from dice_calc.string_rvs import StringVal
a, b = StringVal.from_str('a'), StringVal.from_str('A')
assert (a < b) != (b < a)
''')
