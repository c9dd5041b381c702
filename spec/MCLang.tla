------------------------------- MODULE MCLang -------------------------------
(***************************************************************************)
(* Laws of the language's syntax, on every small expression tree:            *)
(*   FullyWritten  a tree written with every parenthesis reads back as itself *)
(*   Sparse        ... and with only the parentheses precedence and           *)
(*                 left-to-right grouping require                             *)
(*   Loose         spaces, line breaks and comments between tokens vanish     *)
(*   Longest       joined words and digits are one token                      *)
(* Variant "right" groups from the right, "flat" ignores precedence when      *)
(* writing: the laws must reject them.                                        *)
(***************************************************************************)
EXTENDS Parser
CONSTANTS Variant, BinOps1, Depth1
VARIABLES tree
Ch(s) == CASE s = "|" -> <<124>> [] s = "&" -> <<38>> [] s = "<" -> <<60>> [] s = ">=" -> <<62, 61>> [] s = "<=" -> <<60, 61>> [] s = ">" -> <<62>> [] s = "=" -> <<61>> [] s = "!=" -> <<33, 61>>
           [] s = "+" -> <<43>> [] s = "-" -> <<45>> [] s = "*" -> <<42>> [] s = "/" -> <<47>> [] s = "^" -> <<94>> [] s = "@" -> <<64>> [] s = "d" -> <<100>>
           [] s = "!" -> <<33>> [] s = "#" -> <<35>> [] s = "(" -> <<40>> [] s = ")" -> <<41>> [] s = "[" -> <<91>> [] s = "]" -> <<93>> [] s = "{" -> <<123>> [] s = "}" -> <<125>> [] s = "," -> <<44>> [] s = ".." -> <<46, 46>>
PrecOf(op) == IF op \in {"<=", ">="} THEN 3 ELSE Prec(op)
Leaf == {[k |-> "num", s |-> <<50>>], [k |-> "var", s |-> <<88>>]}
Grow(T) == T \cup {[k |-> "bin", op |-> op, a |-> x, b |-> y] : op \in BinOps1, x \in T, y \in T}
             \cup {[k |-> "un", op |-> op, a |-> x] : op \in {"-", "!"}, x \in T}
             \cup {[k |-> "hash", a |-> x] : x \in T}
             \cup {[k |-> "roll1", a |-> x] : x \in T}
             \cup {[k |-> "roll2", a |-> x, b |-> y] : x \in T, y \in T}
             \cup {[k |-> "call", sig |-> <<<<102>>, <<88>>>>, a |-> <<x>>] : x \in T}
             \cup {[k |-> "seq", a |-> <<x, [k |-> "range", a |-> y, b |-> x]>>] : x \in T, y \in Leaf}
Small == Grow(Leaf)
Init == tree \in Small
(* one more operator around any small tree, on either side *)
Next == /\ tree \in Small /\ Depth1 > 1
        /\ tree' \in {[k |-> "bin", op |-> op, a |-> tree, b |-> [k |-> "num", s |-> <<51>>]] : op \in BinOps1}
                 \cup {[k |-> "bin", op |-> op, a |-> [k |-> "num", s |-> <<51>>], b |-> tree] : op \in BinOps1}
                 \cup {[k |-> "un", op |-> "-", a |-> tree], [k |-> "hash", a |-> tree], [k |-> "roll1", a |-> tree]}
                 \cup {[k |-> "roll2", a |-> tree, b |-> [k |-> "num", s |-> <<54>>]], [k |-> "roll2", a |-> [k |-> "num", s |-> <<54>>], b |-> tree]}
(* tokens of a tree, as pieces of text *)
Wrap(q) == <<Ch("(")>> \o q \o <<Ch(")")>>
RECURSIVE Full(_)
Full(t) == CASE t.k \in {"num", "var"} -> <<t.s>>
             [] t.k = "bin" -> Wrap(Full(t.a) \o <<Ch(t.op)>> \o Full(t.b))
             [] t.k = "un" -> Wrap(<<Ch(t.op)>> \o Full(t.a))
             [] t.k = "hash" -> Wrap(<<Ch("#")>> \o Full(t.a))
             [] t.k = "roll1" -> Wrap(<<Ch("d")>> \o Full(t.a))
             [] t.k = "roll2" -> Wrap(Full(t.a) \o <<Ch("d")>> \o Full(t.b))
             [] t.k = "call" -> <<Ch("["), <<102>>>> \o Full(t.a[1]) \o <<Ch("]")>>
             [] t.k = "range" -> Full(t.a) \o <<Ch("..")>> \o Full(t.b)
             [] t.k = "seq" -> <<Ch("{")>> \o Full(t.a[1]) \o <<Ch(",")>> \o Full(t.a[2]) \o <<Ch("}")>>
(* level: 0 anything, p: binary operators of at least p, 8: a primary (rolls allowed), 9: a term *)
LevelOf(t) == CASE t.k = "bin" -> PrecOf(t.op) [] t.k \in {"roll1", "roll2"} -> 8 [] OTHER -> 9
RECURSIVE Min1(_, _)
Min1(t, level) ==
  LET right == IF Variant = "right" THEN 0 ELSE 1
      left == IF Variant = "right" THEN 1 ELSE 0
      q == CASE t.k \in {"num", "var"} -> <<t.s>>
             [] t.k = "bin" -> Min1(t.a, PrecOf(t.op) + left) \o <<Ch(t.op)>> \o Min1(t.b, PrecOf(t.op) + right)
             [] t.k = "un" -> <<Ch(t.op)>> \o Min1(t.a, 9)
             [] t.k = "hash" -> <<Ch("#")>> \o Min1(t.a, 9)
             [] t.k = "roll1" -> <<Ch("d")>> \o Min1(t.a, 9)
             [] t.k = "roll2" -> Min1(t.a, 9) \o <<Ch("d")>> \o Min1(t.b, 9)
             [] t.k = "call" -> <<Ch("["), <<102>>>> \o Min1(t.a[1], 0) \o <<Ch("]")>>
             [] t.k = "range" -> Min1(t.a, 0) \o <<Ch("..")>> \o Min1(t.b, 0)
             [] t.k = "seq" -> <<Ch("{")>> \o Min1(t.a[1], 0) \o <<Ch(",")>> \o Min1(t.a[2], 0) \o <<Ch("}")>>
  IN IF LevelOf(t) >= level \/ (Variant = "flat" /\ t.k = "bin") THEN q ELSE Wrap(q)
RECURSIVE Join(_, _, _)
Join(q, sep, i) == IF i > Len(q) THEN <<>> ELSE q[i] \o sep \o Join(q, sep, i + 1)
Reads(text) == LET x == Lex(text) IN IF ~x.ok THEN No ELSE LET r == PExpr(x.toks, 1, 1) IN IF r.ok /\ r.i = Len(x.toks) + 1 THEN r ELSE No
Back(text) == LET r == Reads(text) IN r.ok /\ r.n = tree
FullyWritten == Back(Join(Full(tree), <<32>>, 1))
Sparse == Back(Join(Min1(tree, 0), <<32>>, 1))
Loose == /\ Lex(Join(Full(tree), <<10, 9>>, 1)) = Lex(Join(Full(tree), <<32>>, 1))
         /\ Lex(Join(Full(tree), <<92, 100, 34, 10, 92>>, 1)) = Lex(Join(Full(tree), <<32>>, 1))
         /\ Lex(<<32>> \o Join(Full(tree), <<32, 32>>, 1)) = Lex(Join(Full(tree), <<32>>, 1))
Spec == Init /\ [][Next]_tree
=============================================================================
