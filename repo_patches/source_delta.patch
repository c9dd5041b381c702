From ffe8ddf32ffbc3d8a0bc159c176bae4fb23072cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 01/28] fix: restore the function depth when a function raises
 or resets the settings

---
 src/decorators.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/decorators.py b/src/decorators.py
index e0cd5f8..bff96b7 100644
--- a/src/decorators.py
+++ b/src/decorators.py
@@ -150,9 +150,12 @@ def max_func_depth():
           print(msg)
           SETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED'] = True
         return blackrv.BlankRV()
-      SETTINGS['INTERNAL_CURR_DEPTH'] += 1
-      res = func(*args, **kwargs)
-      SETTINGS['INTERNAL_CURR_DEPTH'] -= 1
+      depth = SETTINGS['INTERNAL_CURR_DEPTH']
+      SETTINGS['INTERNAL_CURR_DEPTH'] = depth + 1
+      try:
+        res = func(*args, **kwargs)
+      finally:  # leave the depth as it was found even if func raised
+        SETTINGS['INTERNAL_CURR_DEPTH'] = depth
       return res if res is not None else blackrv.BlankRV()
     return wrapper
   return decorator
-- 
2.43.0


From 656b65370f257c00c7cd390f2ba5c4a3aaa878db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 02/28] fix: rolling does not rewrite the description of the
 rolled die or of earlier rolls

---
 src/roller.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/roller.py b/src/roller.py
index 5c13e7a..c98cd72 100644
--- a/src/roller.py
+++ b/src/roller.py
@@ -1,4 +1,5 @@
 from typing import Union, Iterable
+import copy
 import random
 import math
 
@@ -50,6 +51,7 @@ def roll(n: Union[T_ifsr, str], d: Union[T_ifsr, str, None] = None) -> MetaRV:
     assert isinstance(n, RV), 'n must be a RV if its MetaRV'
   # both arguments are now exactly int|Seq|RV
   result = _roll(n, d)  # ROLL!
+  result = copy.copy(result)  # result may be d itself or a memoized roll, which must not be modified
   result._str_LHS_RHS = _setup_str_LHS_RHS(n, d)  # only used for the __str__ method
   return result
 
-- 
2.43.0


From d56ece0e6fa3e8cbe514fa4c3c597f50a2e79175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 03/28] fix: memoized rolls depend on the settings and value
 types they were made with

---
 src/roller.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/roller.py b/src/roller.py
index c98cd72..92186d5 100644
--- a/src/roller.py
+++ b/src/roller.py
@@ -6,6 +6,7 @@ import math
 from .typings import T_ifsr, MetaRV, MetaSeq
 from . import factory
 from .randvar import RV
+from .settings import SETTINGS
 from . import blackrv
 
 
@@ -90,14 +91,15 @@ def _roll_int_rv(n: int, d: RV) -> RV:
     return RV.from_const(0)
   if n == 1:
     return d
-  if (n, d.vals, d.probs) in _MEMOIZED_ROLLS:
-    return _MEMOIZED_ROLLS[(n, d.vals, d.probs)]
+  key = (n, d.vals, tuple(type(v) for v in d.vals), d.probs, SETTINGS['RV_TRUNC'], SETTINGS['RV_IGNORE_ZERO_PROBS'])
+  if key in _MEMOIZED_ROLLS:
+    return _MEMOIZED_ROLLS[key]
   half = _roll_int_rv(n // 2, d)
   full = half + half
   if n % 2 == 1:
     full = full + d
   full.set_source(n, d)
-  _MEMOIZED_ROLLS[(n, d.vals, d.probs)] = full
+  _MEMOIZED_ROLLS[key] = full
   return full
 
 
-- 
2.43.0


From 35be00274f9c7e5c5994390ff5d95eaa45f75084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 04/28] fix: order statistics do not depend on how get_cdf
 would rebuild the die

---
 src/randvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/randvar.py b/src/randvar.py
index a926bc0..bf7634d 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -241,7 +241,7 @@ class RV(MetaRV):
   def _get_kth_order_statistic(self, draws: int, k: int):
     '''Get the k-th smallest value of n draws: k@RV where RV is n rolls of a die'''
     # k-th largest value of n draws: γ@RV where RV is n rolls of a die | FOR DISCRETE (what we need): https://en.wikipedia.org/wiki/Order_statistic#Dealing_with_discrete_variables
-    cdf = self.get_cdf().probs  # P(X <= x)
+    cdf = tuple(accumulate(self.probs))  # P(X <= x)
     sum_probs = self._get_sum_probs()
     p1 = tuple(cdf_x - p_x for p_x, cdf_x in zip(self.probs, cdf))  # P(X < x)
     p2 = self.probs  # P(X = x)
-- 
2.43.0


From d808b04c00fba981d20839f37037fee4e1f7588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 05/28] fix: the compiler does not consume the caller's flags

---
 src/parser/python_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 5186b6c..c10653f 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -26,7 +26,7 @@ class PythonResolver:
         self.root = root
         self.reset_state()
 
-        flags = flags or {}
+        flags = dict(flags or {})  # copy, flags are popped below
         # this flag is for a very nasty behaviour in anydice where a functions variables are a temporary copy of the callers variables; see https://anydice.com/program/394f0 and https://anydice.com/program/394f1 for the ugly behaviour
         # handling this is very ugly, we pass around a dictionary of all the code's variables and copy it for each function call
         # this makes the output code look unpleasant as every variable is accessed as dict['VAR'] instead of just VAR.
-- 
2.43.0


From b21cd2d6f729f3586f013a7096d38c2a3a4821dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 06/28] fix: reducing probabilities does not overflow when
 their sum exceeds 1e308

---
 src/randvar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/randvar.py b/src/randvar.py
index bf7634d..17c90e9 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -448,8 +448,8 @@ def _INTERNAL_PROB_LIMIT_VALS(rv: RV, sum_limit: float = 10e30):
   sum_ = rv._get_sum_probs()
   if sum_ <= sum_limit:
     return rv
-  normalizing_const = int(10e10 * (sum_ // sum_limit))
-  logger.warning(f'WARNING reducing probabilities | sum limit {sum_limit}, sum{sum_:.1g}, NORMALIZING BY {normalizing_const:.1g} | from my calc, abs err <= {1 / (sum_ / normalizing_const - 1)}')
+  normalizing_const = int(10e10) * (sum_ // int(sum_limit))
+  logger.warning(f'WARNING reducing probabilities | sum limit {sum_limit}, sum 2^{sum_.bit_length()}, NORMALIZING BY 2^{normalizing_const.bit_length()} | from my calc, abs err <= {1 / (sum_ / normalizing_const - 1)}')
   # napkin math for the error. int(x) = x - x_ϵ where x_ϵ∈[0,1) is for the rounding error. Don't quote me on this math, not 100% sure.
   # P(x_i )=p_i/(∑p_i )  before normalization (p_i is an integer probability unbounded)
   # P(x_i )=p_i/(∑▒Nint(p_i/N) )  after normalization
-- 
2.43.0


From 31747a68fa3b9121a4765b29a1c3199d841013d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 07/28] fix: cdf_cut does not always drop the value 0

---
 src/randvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/randvar.py b/src/randvar.py
index 17c90e9..e69cf01 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -152,7 +152,7 @@ class RV(MetaRV):
         vals_probs[i] = (f'"{v}"', p) if v.is_number() else (f'{v}', p)
     if cdf_cut > 0:  # cut the bottom vals/probs and when stop total cut probs is less than cdf_cut
       sorted_vals_probs = sorted(vals_probs, key=lambda x: x[1])
-      accumelated_probs = tuple(accumulate(sorted_vals_probs, lambda x, y: (y[0], x[1] + y[1]), initial=(0, 0)))
+      accumelated_probs = tuple(accumulate(sorted_vals_probs, lambda x, y: (y[0], x[1] + y[1])))
       vals_to_cut = set(v for v, p in accumelated_probs if p < cdf_cut)
       vals_probs = list((v, p) for v, p in vals_probs if v not in vals_to_cut)
     return tuple(vals_probs)
-- 
2.43.0


From d4341a461d828a0643a4f41dfb389720cfae5f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:30 +0000
Subject: [PATCH 08/28] fix: backslashes in strings are kept as written

---
 src/parser/python_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index c10653f..4e6deee 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -107,7 +107,7 @@ class PythonResolver:
             str_list = []
             for x in node:
                 if isinstance(x, str):
-                    str_list.append(x.replace('{', '{{').replace('}', '}}'))  # escape curly braces
+                    str_list.append(x.replace('\\', '\\\\').replace('{', '{{').replace('}', '}}'))  # escape backslashes and curly braces
                 else:
                     str_list.append(self.resolve_node(x))
             return 'f"' + ''.join(str_list) + '"'
-- 
2.43.0


From 51b76a9a8c5e96c48b76f65ff5083c75f6ddbdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:30 +0000
Subject: [PATCH 09/28] fix: equal string values have equal hashes

---
 src/string_rvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string_rvs.py b/src/string_rvs.py
index 26c2995..3ff3e4f 100644
--- a/src/string_rvs.py
+++ b/src/string_rvs.py
@@ -99,7 +99,7 @@ class StringVal(MetaStr):
       return operator(float('inf'), other)
 
   def __hash__(self):
-    return hash((self.keys, tuple(self.data)))
+    return hash((self.keys, frozenset(self.data.items())))
 
 
 class StringSeq(seq.Seq):
-- 
2.43.0


From 9961bf4efcef70d022d07a740356ad907f6cfeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 10/28] fix: sequences of strings can be indexed, summed,
 reversed and sorted

---
 src/funclib.py    | 5 +++--
 src/string_rvs.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/funclib.py b/src/funclib.py
index 8970060..0fd58bd 100644
--- a/src/funclib.py
+++ b/src/funclib.py
@@ -1,6 +1,7 @@
 # recreations of functions in https://anydice.com/docs/function-library/
 from .typings import T_N, T_S, T_D
 from .seq import Seq
+from .factory import get_seq
 from .settings import SETTINGS
 from .roller import roll
 from .decorators import anydice_type_casting
@@ -38,7 +39,7 @@ def reverse_VANILLA_SLOW(SEQUENCE: T_S, *args, **kwargs):
 
 @anydice_type_casting()
 def reverse(SEQUENCE: T_S, *args, **kwargs):
-    return Seq(SEQUENCE._seq[::-1])
+    return get_seq(SEQUENCE._seq[::-1])
 
 
 @anydice_type_casting()
@@ -129,7 +130,7 @@ def _sort_helper_add_N_to_S(N: T_N, S: T_S, *args, **kwargs):
 
 @anydice_type_casting()
 def sort(SEQUENCE: T_S, *args, **kwargs):
-    return Seq(sorted(SEQUENCE, reverse=True))
+    return get_seq(sorted(SEQUENCE, reverse=True))
 
 # MORE FUNCTIONS
 
diff --git a/src/string_rvs.py b/src/string_rvs.py
index 3ff3e4f..71e5e17 100644
--- a/src/string_rvs.py
+++ b/src/string_rvs.py
@@ -104,7 +104,7 @@ class StringVal(MetaStr):
 
 class StringSeq(seq.Seq):
   def __init__(self, source: tuple[T_ift, ...]):
-    # do not call super().__init__ here
+    super().__init__(_INTERNAL_SEQ_VALUE=())  # _seq is set below
     source_lst: list[T_ift] = list(source)
     for i, x in enumerate(source_lst):
       if isinstance(x, str):
-- 
2.43.0


From 053aaad26fc70c74b3e246a3d819464d88c69863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 11/28] fix: numbers with leading zeros compile to valid python

---
 src/parser/python_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 4e6deee..cf420b2 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -118,7 +118,7 @@ class PythonResolver:
             return '{' + node.val + '}'
         elif node.type == NodeType.NUMBER:  # number in an expression
             assert isinstance(node.val, str), f'Expected str of a number, got {node.val}  type: {type(node.val)}'
-            return str(node.val)
+            return str(int(node.val))  # python does not allow leading zeros
         elif node.type == NodeType.NUMBER_DECIMAL:  # number in an expression
             val1, val2 = node
             assert isinstance(val1, str) and isinstance(val2, str), f'Expected str of a number, got {val1} and {val2}'
-- 
2.43.0


From c05ac9e775028668104fd51815cf095d56ce3d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 12/28] fix: [true div a b] works with
 COMPILER_FLAG_NON_LOCAL_SCOPE

---
 src/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.py b/src/utils.py
index 963b533..883ff20 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -60,5 +60,5 @@ def myor(a, b):
     return a | b
 
 
-def true_div(a, b):
+def true_div(a, b, *args, **kwargs):
     return a / b
-- 
2.43.0


From aa8c7722dee79f168c923a24fc3c06d4e4f06557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 13/28] fix: functions can have duplicate parameters without a
 type

---
 src/parser/python_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index cf420b2..a9a8e3f 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -291,5 +291,5 @@ def fix_dups_in_args(func_args, func_arg_names):
     N = len(func_args)
     for i in range(N - 1, -1, -1):  # only first is kept
         if func_arg_names.count(func_arg_names[i]) > 1:  # IS DUP
-            func_args[i] = f'dummy{i}: ' + func_args[i].split(': ')[1]  # TODO remove colon so anydice_casting doesn't waste time looping over non-used args
+            func_args[i] = ': '.join([f'dummy{i}', *func_args[i].split(': ')[1:]])  # TODO remove colon so anydice_casting doesn't waste time looping over non-used args
             func_arg_names[i] = f'dummy{i}'
-- 
2.43.0


From 81170005a294715f63ca88487a154d6d1f18d5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 14/28] fix: rolling a random number of dice gives a single die
 showing the total

---
 src/roller.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/roller.py b/src/roller.py
index 92186d5..e467a3a 100644
--- a/src/roller.py
+++ b/src/roller.py
@@ -76,7 +76,6 @@ def _roll(n: Union[int, MetaSeq, RV], d: Union[int, MetaSeq, RV]) -> MetaRV:
     assert all(isinstance(v, int) for v in n.vals), 'RV must have int values to roll other dice'
     dies = tuple(roll(int(v), d) for v in n.vals)
     result = RV.from_rvs(rvs=dies, weights=n.probs)
-    result.set_source(1, d)
     return result
   return _roll_int_rv(n, d)
 
-- 
2.43.0


From 9b58c3ebe03b10d59ab44fa41c4f6e4c574e2881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 15/28] fix: a float given to a parameter expecting a sequence
 becomes a sequence

---
 src/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decorators.py b/src/decorators.py
index bff96b7..6248aa4 100644
--- a/src/decorators.py
+++ b/src/decorators.py
@@ -73,7 +73,7 @@ def anydice_type_casting(verbose=False):  # noqa: C901
         elif expected_type == T_N and isinstance(arg_val, MetaRV):
           hard_params[k] = (arg_val, expected_type)
           continue
-        elif expected_type == T_S and isinstance(arg_val, int):
+        elif expected_type == T_S and isinstance(arg_val, (int, float)):
           new_val = get_seq([arg_val])
         elif expected_type == T_S and isinstance(arg_val, MetaRV):
           hard_params[k] = (arg_val, expected_type)
-- 
2.43.0


From 02f47b033e788a0787ca6f64d8f167c7a216df73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:50 +0000
Subject: [PATCH 16/28] fix: dice in a sequence are expanded in the position
 they are written

---
 src/factory.py | 8 +++-----
 src/seq.py     | 5 ++---
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/factory.py b/src/factory.py
index 996d97e..7ce4bb2 100644
--- a/src/factory.py
+++ b/src/factory.py
@@ -1,6 +1,6 @@
 from typing import Iterable, Union
 
-from .typings import T_if, T_ifsr, MetaRV, MetaSeq
+from .typings import T_ifsr, MetaRV, MetaSeq
 from . import utils
 from . import seq
 from . import string_rvs
@@ -16,10 +16,8 @@ def get_seq(*source: T_ifsrt, _INTERNAL_SEQ_VALUE=None) -> 'seq.Seq':
     return seq.Seq(_INTERNAL_SEQ_VALUE=_INTERNAL_SEQ_VALUE)
   # check if string in values, if so, return StringSeq
   flat = tuple(utils.flatten(source))
-  flat_rvs = [x for x in flat if isinstance(x, MetaRV) and not isinstance(x, blackrv.BlankRV)]  # expand RVs
-  flat_rv_vals = [v for rv in flat_rvs for v in rv.vals]
-  flat_else: list[T_if] = [x for x in flat if not isinstance(x, MetaRV)]
-  res = tuple(flat_else + flat_rv_vals)
+  flat = [x for x in flat if not isinstance(x, blackrv.BlankRV)]
+  res = tuple(v for x in flat for v in (x.vals if isinstance(x, MetaRV) else (x, )))  # expand RVs in place
   if any(isinstance(x, (str, string_rvs.StringVal)) for x in res):
     return string_rvs.StringSeq(res)
   assert all(isinstance(x, (int, float)) for x in res), 'Seq must be made of numbers and RVs. Seq:' + str(res)
diff --git a/src/seq.py b/src/seq.py
index 1360e05..0869a72 100644
--- a/src/seq.py
+++ b/src/seq.py
@@ -15,11 +15,10 @@ class Seq(Iterable, MetaSeq):
       self._seq: tuple[T_if, ...] = _INTERNAL_SEQ_VALUE
       return
     flat = tuple(utils.flatten(source))
-    flat_rvs = [x for x in flat if factory.is_rv(x)]  # expand RVs
-    flat_rv_vals = [v for rv in flat_rvs for v in rv.vals]
     flat_else: list[T_if] = [x for x in flat if not isinstance(x, MetaRV)]
     assert all(isinstance(x, (int, float)) for x in flat_else), 'Seq must be made of numbers and RVs. Seq:' + str(flat_else)
-    self._seq = tuple(flat_else + flat_rv_vals)
+    flat = [x for x in flat if factory.is_rv(x) or not isinstance(x, MetaRV)]
+    self._seq = tuple(v for x in flat for v in (x.vals if isinstance(x, MetaRV) else (x, )))  # expand RVs in place
 
   def sum(self):
     if self._sum is None:
-- 
2.43.0


From a85dfda6fbc59f4bcde44569bda4974c57b3bd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:00 +0000
Subject: [PATCH 17/28] fix: compiled operators are grouped as the parser
 grouped them

---
 src/parser/python_resolver.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index a9a8e3f..6b7c83c 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -19,6 +19,8 @@ CONST = {
 }
 _FUNCS_MAY_COLLIDE = set((CONST['output'], CONST['roll'], CONST['range'], 'max_func_depth', 'anydice_casting', 'settings_set'))
 
+_COMPARISONS = ('<', '>', '=', '!=', '<=', '>=')
+
 
 class PythonResolver:
     def __init__(self, root: Node, flags=None):
@@ -96,6 +98,12 @@ class PythonResolver:
         """Indent a string by self.indent_level spaces for each new line"""
         return '\n'.join(' ' * self.INDENT_LEVEL + x for x in s.split('\n'))
 
+    def _resolve_operand(self, node: Union['Node', 'str'], ops) -> str:
+        """Resolve an operand, wrapped in parentheses if it is an operation in ops (those python would group differently than the parser did)"""
+        assert isinstance(node, Node), f'Expected Node in operand, got {node}'
+        is_op = (node.type == NodeType.EXPR_OP and node.vals[0] in ops) or (node.type == NodeType.UNARY and 'unary' in ops)
+        return f'({self.resolve_node(node)})' if is_op else self.resolve_node(node)
+
     def resolve_node(self, node: Union['Node', 'str']) -> str:  # noqa: C901
         assert node is not None, 'Got None'
         assert not isinstance(node, str), f'resolver error, not sure what to do with a string [{node}]. All strings should be a Node ("string", str|strvar...)'
@@ -238,7 +246,11 @@ class PythonResolver:
             elif op == '&' or op == '|':
                 if self._COMPILER_FLAG_OPERATOR_ON_INT:
                     return f'{CONST["oplib"][op]}({self.resolve_node(left)}, {self.resolve_node(right)})'
-                return f'{self.resolve_node(left)} {op} {self.resolve_node(right)}'
+                return f'{self._resolve_operand(left, _COMPARISONS)} {op} {self._resolve_operand(right, _COMPARISONS)}'
+            elif op == '**':
+                return f'{self._resolve_operand(left, ("^", "unary"))} {op} {self.resolve_node(right)}'
+            elif node.vals[0] in _COMPARISONS:
+                return f'{self._resolve_operand(left, _COMPARISONS)} {op} {self.resolve_node(right)}'
             else:  # all other operators
                 return f'{self.resolve_node(left)} {op} {self.resolve_node(right)}'
         elif node.type == NodeType.UNARY:
-- 
2.43.0


From 0565f7c052bbf5cda1792083bdc9d28e36cd9862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:40 +0000
Subject: [PATCH 18/28] fix: user function names cannot collide with names used
 by the compiled code

---
 src/parser/python_resolver.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 6b7c83c..48f3c85 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -1,3 +1,4 @@
+import keyword
 import logging
 from typing import Union
 
@@ -17,7 +18,8 @@ CONST = {
   'function library': ('absolute_X', 'X_contains_X', 'count_X_in_X', 'explode_X', 'highest_X_of_X', 'lowest_X_of_X', 'middle_X_of_X', 'highest_of_X_and_X', 'lowest_of_X_and_X', 'maximum_of_X', 'reverse_X', 'sort_X', 'true_div_X_X'),
   'oplib': {'@': 'myMatmul', 'len': 'myLen', '~': 'myInvert', '&': 'myAnd', '|': 'myOr'},
 }
-_FUNCS_MAY_COLLIDE = set((CONST['output'], CONST['roll'], CONST['range'], 'max_func_depth', 'anydice_casting', 'settings_set'))
+_FUNCS_MAY_COLLIDE = set((CONST['output'], CONST['roll'], CONST['range'], CONST['seq'], 'max_func_depth', 'anydice_casting', 'settings_set', 'len', 'vars'))
+_FUNCS_MAY_COLLIDE.update(keyword.kwlist, ('print', 'printed', 'exec', 'eval'))  # cannot be the name of a (restricted) python function
 
 _COMPARISONS = ('<', '>', '=', '!=', '<=', '>=')
 
@@ -74,7 +76,7 @@ class PythonResolver:
                 assert f_name in self._defined_functions, f'Unknown function {f_name} not defined. Currently callable functions: {self._user__defined_functions}'
         assert self._output_counter > 0, 'No outputs made. Did you forget to call "output expr"?'
 
-        if any(f in self._defined_functions for f in _FUNCS_MAY_COLLIDE):  # collision -> reset with flag (if another collision then crash)
+        if any(f in _FUNCS_MAY_COLLIDE or f == f.upper() for f in self._defined_functions):  # collision (variables are uppercase) -> reset with flag (if another collision then crash)
             assert not self._COMPILER_FLAG_FUNC_LIB_CONFLICT, 'Function library conflict despite flag; this should not happen'
             self._COMPILER_FLAG_FUNC_LIB_CONFLICT = True
             self.reset_state()
@@ -98,6 +100,19 @@ class PythonResolver:
         """Indent a string by self.indent_level spaces for each new line"""
         return '\n'.join(' ' * self.INDENT_LEVEL + x for x in s.split('\n'))
 
+    def _get_user_functions(self, node: Node) -> 'set[str]':
+        """Names of all functions defined inside a node"""
+        names = set()
+        if node.type == NodeType.FUNCTION and isinstance(node.vals[0], Node):
+            names.add('_'.join(x if isinstance(x, str) else 'X' for x in node.vals[0]))
+        return names.union(*(self._get_user_functions(x) for x in node if isinstance(x, Node)))
+
+    def _get_python_func_name(self, name: 'list[str]') -> str:
+        """Python name of a defined/called function, prefixed if FUNC_LIB_CONFLICT unless it is from the function library"""
+        joined = '_'.join(name)
+        is_lib = joined in CONST['function library'] and joined not in self._get_user_functions(self.root)
+        return f'f_{joined}' if self._COMPILER_FLAG_FUNC_LIB_CONFLICT and not is_lib else joined
+
     def _resolve_operand(self, node: Union['Node', 'str'], ops) -> str:
         """Resolve an operand, wrapped in parentheses if it is an operation in ops (those python would group differently than the parser did)"""
         assert isinstance(node, Node), f'Expected Node in operand, got {node}'
@@ -160,8 +175,6 @@ class PythonResolver:
             nameargs, code = node
             assert isinstance(nameargs, Node) and nameargs.type == NodeType.FUNCNAME_DEF, f'Error in parsing fuction node: {node}'
             func_name, func_args, func_arg_names = [], [], []
-            if self._COMPILER_FLAG_FUNC_LIB_CONFLICT:
-                func_name.append('f')
             for x in nameargs:  # nameargs is a list of strings and expressions e.g. [attack 3d6 if crit 6d6 and double crit 12d6]
                 assert isinstance(x, str) or (isinstance(x, Node) and x.type in (NodeType.PARAM, NodeType.PARAM_WITH_DTYPE)), f'Error in parsing function node: {node}'
                 if isinstance(x, str):
@@ -182,7 +195,7 @@ class PythonResolver:
                 fix_dups_in_args(func_args, func_arg_names)
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
                 func_args.append('vars')
-            func_name = '_'.join(func_name)
+            func_name = self._get_python_func_name(func_name)
             self._defined_functions.add(func_name)
             self._user__defined_functions.append(func_name)
             func_decorator = CONST['func_decorator']
@@ -274,8 +287,6 @@ class PythonResolver:
             return f'{CONST["range"]}({l}, {r})'
         elif node.type == NodeType.CALL:
             name, args = [], []
-            if self._COMPILER_FLAG_FUNC_LIB_CONFLICT:
-                name.append('f')
             for x in node:
                 if isinstance(x, Node) and x.type == NodeType.CALL_EXPR:  # expression
                     args.append(self.resolve_node(x.val))
@@ -286,7 +297,7 @@ class PythonResolver:
                     assert False, f'Unknown node in call: {x}, parent: {node}'
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
                 args.append('vars')
-            name = '_'.join(name)
+            name = self._get_python_func_name(name)
             self._called_functions.add(name)
             return f'{name}({", ".join(args)})' if args else f'{name}()'
 
-- 
2.43.0


From b7c2241b36a26107d4f9f0b8547d3441c0e9c139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:22 +0000
Subject: [PATCH 19/28] fix: variables cannot hide the types used in function
 definitions nor be rejected for an underscore

---
 src/parser/python_resolver.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 48f3c85..110bf29 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -138,7 +138,7 @@ class PythonResolver:
             assert isinstance(node.val, str), f'Expected string for strvar, got {node.val}'
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
                 return "{vars['" + node.val + "']}"
-            return '{' + node.val + '}'
+            return '{' + py_var(node.val) + '}'
         elif node.type == NodeType.NUMBER:  # number in an expression
             assert isinstance(node.val, str), f'Expected str of a number, got {node.val}  type: {type(node.val)}'
             return str(int(node.val))  # python does not allow leading zeros
@@ -150,7 +150,7 @@ class PythonResolver:
             assert isinstance(node.val, str), f'Expected str of a variable, got {node.val}'
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
                 return f"vars['{node.val}']"
-            return node.val
+            return py_var(node.val)
         elif node.type == NodeType.GROUP:  # group inside an expression, node.val is an expression
             return f'({self.resolve_node(node.val)})'
 
@@ -181,14 +181,14 @@ class PythonResolver:
                     func_name.append(x)
                 elif x.type == NodeType.PARAM:
                     arg_name = x.val
-                    func_args.append(arg_name)
+                    func_args.append(py_var(arg_name))
                     func_arg_names.append(arg_name)
                     func_name.append('X')
                 else:
                     arg_name, arg_dtype = x
                     assert isinstance(arg_dtype, str), f'Expected string for arg_dtype, got {arg_dtype}'
                     arg_dtype = {'s': 'T_S', 'n': 'T_N', 'd': 'T_D'}.get(arg_dtype, arg_dtype)
-                    func_args.append(f'{arg_name}: {arg_dtype}')
+                    func_args.append(f'{py_var(arg_name)}: {arg_dtype}')
                     func_arg_names.append(arg_name)
                     func_name.append('X')
             if has_dups(func_arg_names):
@@ -202,7 +202,7 @@ class PythonResolver:
             func_def = f'def {func_name}({", ".join(func_args)}):'
             func_code = ''
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
-                func_code += self._indent_str('vars = vars.copy(); ' + '; '.join([f'vars["{n}"] = {n}' for n in func_arg_names])) + '\n'
+                func_code += self._indent_str('vars = vars.copy(); ' + '; '.join([f'vars["{n}"] = {py_var(n)}' for n in func_arg_names])) + '\n'
             func_code += self._indent_resolve(code)
             return f'{func_decorator}\n{func_def}\n{func_code}' + '\n' * self.NEWLINES_AFTER_FUNCTION
         elif node.type == NodeType.RESULT:
@@ -229,10 +229,10 @@ class PythonResolver:
         # LOOP
         elif node.type == NodeType.LOOP:
             var, over, code = node
-            res_header = f'for {var} in {self.resolve_node(over)}:'
+            res_header = f'for {py_var(var)} in {self.resolve_node(over)}:'
             res_code = ''
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
-                res_code += self._indent_str(f"vars['{var}'] = {var}") + '\n'  # I hate this but it must happen
+                res_code += self._indent_str(f"vars['{var}'] = {py_var(var)}") + '\n'  # I hate this but it must happen
             res_code += self._indent_resolve(code)
             return res_header + '\n' + res_code + '\n' * self.NEWLINES_AFTER_LOOP
 
@@ -241,7 +241,7 @@ class PythonResolver:
             var, val = node
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
                 return f"vars['{var}'] = {self.resolve_node(val)}"
-            return f'{var} = {self.resolve_node(val)}'
+            return f'{py_var(var)} = {self.resolve_node(val)}'
 
         # EXPRESSIONS
         elif node.type == NodeType.EXPR_OP:
@@ -305,6 +305,11 @@ class PythonResolver:
             assert False, f'Unknown node: {node}'
 
 
+def py_var(name):
+    # python name of a variable: must not hide the types used in function definitions nor start with an underscore (not allowed in restricted python)
+    return f'v{name}' if name in ('T_N', 'T_S', 'T_D') or name.startswith('_') else name
+
+
 def has_dups(lst):
     return len(lst) != len(set(lst))
 
-- 
2.43.0


From 80efae75fc22f3ec8078050c65c4ee7e0033c619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:27 +0000
Subject: [PATCH 20/28] fix: position order applies to several positions at
 once, but not to highest/lowest/middle

---
 src/funclib.py | 14 ++++++++++----
 src/randvar.py |  2 ++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/funclib.py b/src/funclib.py
index 0fd58bd..0ed7e7a 100644
--- a/src/funclib.py
+++ b/src/funclib.py
@@ -62,14 +62,20 @@ def _explode_helper(N: T_N, MAX: T_N, ORIG_DIE: T_D, depth):
     return N
 
 
+def _at_highest_first(positions, DICE):
+    if SETTINGS['position order'] == 'lowest first':
+        positions = [len(DICE) + 1 - p for p in positions]
+    return Seq(positions) @ DICE
+
+
 @anydice_type_casting()
 def highest_N_of_D(NUMBER: T_N, DICE: T_D, *args, **kwargs):
-    return Seq(range(1, NUMBER + 1)) @ DICE
+    return _at_highest_first(range(1, NUMBER + 1), DICE)
 
 
 @anydice_type_casting()
 def lowest_N_of_D(NUMBER: T_N, DICE: T_D, *args, **kwargs):
-    return Seq(range((len(DICE) - NUMBER + 1), len(DICE) + 1)) @ DICE
+    return _at_highest_first(range((len(DICE) - NUMBER + 1), len(DICE) + 1), DICE)
 
 
 @anydice_type_casting()
@@ -78,11 +84,11 @@ def middle_N_of_D(NUMBER: T_N, DICE: T_D, *args, **kwargs):
         return DICE
 
     if NUMBER == 1:
-        return (1 + (len(DICE) - 1) // 2) @ DICE
+        return _at_highest_first([1 + (len(DICE) - 1) // 2], DICE)
 
     FROM = 1 + (len(DICE) - NUMBER) // 2
     TO = FROM + NUMBER - 1
-    return Seq(range(FROM, TO + 1)) @ DICE
+    return _at_highest_first(range(FROM, TO + 1), DICE)
 
 
 @anydice_type_casting()
diff --git a/src/randvar.py b/src/randvar.py
index e69cf01..22b0ac4 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -236,6 +236,8 @@ class RV(MetaRV):
       k = other._seq[0]
       assert isinstance(k, int), 'unsupported operand type(s) for @: float and RV'
       return self._source_die._get_kth_order_statistic(self._source_roll, k)
+    if SETTINGS['position order'] == 'lowest first':  # _sum_at is given the rolls sorted highest first
+      other = factory.get_seq([self._source_roll - i + 1 for i in other._seq])
     return _sum_at(self, other)  # type: ignore  anydice_casting
 
   def _get_kth_order_statistic(self, draws: int, k: int):
-- 
2.43.0


From 97379d925aa78ac6d7fca327e0cee59a0286b7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:28 +0000
Subject: [PATCH 21/28] fix: selecting the digits of a truth value failed
 instead of treating it as 0 or 1

---
 src/seq.py   | 2 ++
 src/utils.py | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/seq.py b/src/seq.py
index 0869a72..2d7d417 100644
--- a/src/seq.py
+++ b/src/seq.py
@@ -50,6 +50,8 @@ class Seq(Iterable, MetaSeq):
     if isinstance(other, MetaRV):  # ( self:SEQ @ other:RV ) thus RV takes priority
       return other.__rmatmul__(self)
     # access at indices in other ( self @ other )
+    if isinstance(other, bool):
+      other = int(other)
     if isinstance(other, (int, float)):
       other = Seq([int(d) for d in str(other)])  # SEQ @ int  thus convert int to sequence using base 10
     if not isinstance(other, Seq):
diff --git a/src/utils.py b/src/utils.py
index 883ff20..2be88c8 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -32,7 +32,8 @@ def factorial(n: int):
 # to handle special cases of operators on int
 def mymatmul(a, b):
     if isinstance(a, int) and isinstance(b, int):  # special case for int @ int
-        return int(str(b)[a - 1]) if (0 <= a - 1 < len(str(b))) else 0
+        digits = str(int(b))  # a bool is the number 0 or 1
+        return int(digits[a - 1]) if (0 <= a - 1 < len(digits)) else 0
     return a @ b
 
 
-- 
2.43.0


From 7c3bedc59da2cad04fb3f416948ac0b37ad6513d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:39 +0000
Subject: [PATCH 22/28] fix: a call can begin with another call as its first
 argument

---
 src/parser/myparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/myparser.py b/src/parser/myparser.py
index c11f818..350767e 100644
--- a/src/parser/myparser.py
+++ b/src/parser/myparser.py
@@ -606,7 +606,7 @@ def p_call_elements_expr(p):
     call_elements : expression
                 | call_elements expression
     '''
-    if p[1].type == NodeType.CALL:  # recursive case
+    if len(p) == 3:  # recursive case (the type of p[1] cannot tell: the first expression of a call can be a call)
         wrapped = Node(NodeType.CALL_EXPR, p[2])
         p[0] = p[1].with_child(wrapped)
     else:
-- 
2.43.0


From ad47b2e929b4cef6477364ef86c69c4215f3dfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:57 +0000
Subject: [PATCH 23/28] fix: a program that reads an unset variable RV got a
 class of the library instead of an error

---
 src/parser/python_resolver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 110bf29..8242e84 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -306,8 +306,8 @@ class PythonResolver:
 
 
 def py_var(name):
-    # python name of a variable: must not hide the types used in function definitions nor start with an underscore (not allowed in restricted python)
-    return f'v{name}' if name in ('T_N', 'T_S', 'T_D') or name.startswith('_') else name
+    # python name of a variable: must not be one of the library (such as the types used in function definitions) nor start with an underscore (not allowed in restricted python)
+    return f'v{name}' if name in ('T_N', 'T_S', 'T_D', 'RV') or name.startswith('_') else name
 
 
 def has_dups(lst):
-- 
2.43.0


From 304aa892674918272bb6c31f77404b304952fd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:37 +0000
Subject: [PATCH 24/28] fix: a renamed variable could collide with a function
 named v X

---
 src/parser/python_resolver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 8242e84..29c295d 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -306,8 +306,8 @@ class PythonResolver:
 
 
 def py_var(name):
-    # python name of a variable: must not be one of the library (such as the types used in function definitions) nor start with an underscore (not allowed in restricted python)
-    return f'v{name}' if name in ('T_N', 'T_S', 'T_D', 'RV') or name.startswith('_') else name
+    # python name of a variable: must not be one of the library (such as the types used in function definitions) nor start with an underscore (not allowed in restricted python); the digit keeps it apart from function names
+    return f'v0{name}' if name in ('T_N', 'T_S', 'T_D', 'RV') or name.startswith('_') else name
 
 
 def has_dups(lst):
-- 
2.43.0


From 6a6aceee57732ff73ac912ba51118d41e9b26c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:15 +0000
Subject: [PATCH 25/28] fix: a text value added to a sequence or a die is added
 to it, not swallowed as a number

---
 src/string_rvs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/string_rvs.py b/src/string_rvs.py
index 71e5e17..4ca6cbb 100644
--- a/src/string_rvs.py
+++ b/src/string_rvs.py
@@ -33,8 +33,12 @@ class StringVal(MetaStr):
     return len(self.keys) == 1 and re.match(r'^-?\d+(\.\d+)?$', self.keys[0])
 
   def __add__(self, other):
-    if not isinstance(other, StringVal):
+    if isinstance(other, str):
+      other = StringVal.from_str(other)
+    elif isinstance(other, (int, float)):
       other = StringVal.from_const(other)
+    if not isinstance(other, StringVal):
+      return NotImplemented  # let the sequence or RV handle the operation
     newdict = self.data.copy()
     for key, val in other.data.items():
       newdict[key] = newdict.get(key, 0) + val
-- 
2.43.0


From 401a398d0922bab4f953a6dc9aac9e4a70e26e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:13 +0000
Subject: [PATCH 26/28] fix: the standard deviation of large outcomes close
 together cancelled to nothing

---
 src/randvar.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/randvar.py b/src/randvar.py
index 22b0ac4..828166c 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -125,9 +125,10 @@ class RV(MetaRV):
   def std(self):
     if self._get_sum_probs() == 0:  # if no probabilities, then std does not exist
       return None
-    EX2 = (self**2).mean()
-    EX = self.mean()
-    assert EX2 is not None and EX is not None, 'mean must be defined to calculate std'
+    # measured from the likeliest outcome: when outcomes are large and close together E[X^2] - E[X]^2 cancels to nothing
+    base = self.vals[self.probs.index(max(self.probs))]
+    EX2 = sum((v - base) * (v - base) * p for v, p in zip(self.vals, self.probs)) / self._get_sum_probs()
+    EX = sum((v - base) * p for v, p in zip(self.vals, self.probs)) / self._get_sum_probs()
     var = EX2 - EX**2  # E[X^2] - E[X]^2
     return math.sqrt(var) if var >= 0 else 0
 
-- 
2.43.0


From 0c0ca9292fe5bf69ca24e445d80fd310b7e51a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:00 +0000
Subject: [PATCH 27/28] fix: dice with weights beyond the float range could not
 be averaged or sampled

---
 src/randvar.py | 13 +++++++++++++
 src/roller.py  |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/src/randvar.py b/src/randvar.py
index 828166c..cf02ae9 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -2,6 +2,7 @@
 
 import operator
 import math
+import copy
 from typing import Callable, Iterable, Union
 from itertools import combinations_with_replacement, accumulate
 from collections import defaultdict
@@ -120,11 +121,15 @@ class RV(MetaRV):
   def mean(self):
     if self._get_sum_probs() == 0:
       return None
+    if self._get_sum_probs() >> 500:
+      return self._get_scaled_down().mean()
     return sum(v * p for v, p in zip(self.vals, self.probs)) / self._get_sum_probs()
 
   def std(self):
     if self._get_sum_probs() == 0:  # if no probabilities, then std does not exist
       return None
+    if self._get_sum_probs() >> 500:
+      return self._get_scaled_down().std()
     # measured from the likeliest outcome: when outcomes are large and close together E[X^2] - E[X]^2 cancels to nothing
     base = self.vals[self.probs.index(max(self.probs))]
     EX2 = sum((v - base) * (v - base) * p for v, p in zip(self.vals, self.probs)) / self._get_sum_probs()
@@ -132,6 +137,14 @@ class RV(MetaRV):
     var = EX2 - EX**2  # E[X^2] - E[X]^2
     return math.sqrt(var) if var >= 0 else 0
 
+  def _get_scaled_down(self):
+    '''Get a copy whose probabilities are small enough to be used with floats (every probability keeps its share up to a rounding below 2**-400)'''
+    shift = max(0, self._get_sum_probs().bit_length() - 400)
+    res = copy.copy(self)
+    res.probs = tuple(p >> shift for p in self.probs)
+    res._get_sum_probs(force=True)
+    return res
+
   def filter(self, obj: T_ifsr):
     to_filter = set(factory.get_seq(obj))
     vp = tuple((v, p) for v, p in zip(self.vals, self.probs) if v not in to_filter)
diff --git a/src/roller.py b/src/roller.py
index e467a3a..23eb8b4 100644
--- a/src/roller.py
+++ b/src/roller.py
@@ -124,6 +124,8 @@ def _setup_str_LHS_RHS(n, d):
 
 def roller(rv: T_ifsr, count: Union[int, None] = None):
   rv = factory.get_rv(rv)
+  if rv._get_sum_probs() >> 500:  # random.choices needs weights within the float range
+    rv = rv._get_scaled_down()
   # roll using random.choices
   if count is None:
     return random.choices(rv.vals, rv.probs)[0]
-- 
2.43.0


From a38beca8ff0a4f2fa8b17a15032edb9f0dddd45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:59 +0000
Subject: [PATCH 28/28] fix: names with a carriage return or NUL and decimals
 in other scripts compiled to code that could not run

---
 src/parser/myparser.py        | 1 +
 src/parser/python_resolver.py | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/myparser.py b/src/parser/myparser.py
index 350767e..491ebde 100644
--- a/src/parser/myparser.py
+++ b/src/parser/myparser.py
@@ -80,6 +80,7 @@ def t_ignore_COMMENT(t):
 def t_NUMBER(t):
     r'\d+'
     # t.value = int(t.value)  # Convert the string to an integer
+    t.value = ''.join(str(int(c)) for c in t.value)  # \d includes the digits of every script, python code only has 0-9
     return t
 
 
diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 29c295d..f4a06ae 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -130,7 +130,8 @@ class PythonResolver:
             str_list = []
             for x in node:
                 if isinstance(x, str):
-                    str_list.append(x.replace('\\', '\\\\').replace('{', '{{').replace('}', '}}'))  # escape backslashes and curly braces
+                    x = x.replace('\\', '\\\\').replace('{', '{{').replace('}', '}}')  # escape backslashes and curly braces
+                    str_list.append(x.replace('\r', '\\r').replace('\0', '\\x00'))  # these cannot be in python code
                 else:
                     str_list.append(self.resolve_node(x))
             return 'f"' + ''.join(str_list) + '"'
-- 
2.43.0

