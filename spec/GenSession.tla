---------------------------- MODULE GenSession ----------------------------
(***************************************************************************)
(* Enumerates the behaviours of the Session machine over an alphabet of     *)
(* calls, as histories for the real code:                                    *)
(*   ops       every operator on every pair (or one) of the operands         *)
(*   settings  every Steps settings calls                                    *)
(*   memo      every two rolls or selections made under any two settings     *)
(* Along the way TLC checks that every specified answer is a proper value.   *)
(***************************************************************************)
EXTENDS Session, Json
CONSTANTS Kind, Part, Steps
VARIABLE log
gvars == <<st, store, resp, log>>

Num(i) == [op |-> "n", v |-> <<i, 1>>]
Frac(i, k) == [op |-> "n", v |-> <<i, k>>]
SeqE(q) == [op |-> "seq", c |-> 0, a |-> [i \in DOMAIN q |-> Num(q[i])]]
RollE(a, b) == [op |-> "roll", a |-> <<a, b>>]
RV(vs, ws) == [op |-> "rv", v |-> vs, w |-> ws]
BlankE == [op |-> "blank"]
OtherBlank == RollE(BlankE, Num(2))
Dice == <<RollE(Num(1), Num(3)), RollE(Num(2), Num(2)), RV(<<<<0, 1>>, <<2, 1>>, <<5, 1>>>>, <<2, 0, 3>>), RV(<<<<-3, 2>>, <<1, 1>>>>, <<1, 3>>),
          RV(<<<<0, 1>>>>, <<1>>), RV(<<<<2, 1>>>>, <<1>>), RollE(Num(3), RV(<<<<-1, 1>>, <<4, 1>>>>, <<2, 1>>))>>
Numbers == <<Num(0), Num(1), Num(-2), Frac(3, 2), Num(12)>>
Seqs == <<SeqE(<<>>), SeqE(<<1, 2, 2>>), SeqE(<<-3>>), SeqE(<<3, 1>>)>>
Blanks == <<BlankE, OtherBlank>>
Left == CASE Part = "dice" -> Dice \o Numbers [] Part = "seq" -> Seqs \o Numbers \o Dice [] Part = "blank" -> Blanks \o Numbers \o Seqs \o Dice [] OTHER -> <<>>
Has1(part, e) == \/ part = "dice" /\ \E i \in DOMAIN Dice : e = Dice[i]
                 \/ part = "seq" /\ \E i \in DOMAIN Seqs : e = Seqs[i]
                 \/ part = "blank" /\ \E i \in DOMAIN Blanks : e = Blanks[i]
Ev(e) == [k |-> "ev", e |-> e]
Mine(op) == op \in {"and", "or", "at", "not", "len"}
Two(op, a, b) == IF Mine(op) THEN [op |-> op, a |-> <<a, b>>, my |-> 1] ELSE [op |-> op, a |-> <<a, b>>]
Solo(op, a) == IF Mine(op) THEN [op |-> op, a |-> <<a>>, my |-> 1] ELSE [op |-> op, a |-> <<a>>]
Binaries == <<"add", "sub", "mul", "floordiv", "truediv", "mod", "pow", "eq", "ne", "lt", "le", "gt", "ge", "and", "or", "at", "roll">>
Unaries == <<"neg", "pos", "not", "abs", "floor", "ceil", "trunc", "len", "bool", "round">>
(* all f(i, j) with i, j below a and b, as one sequence *)
Grid(a, b, F(_, _)) == [k \in 1..(a * b) |-> F(1 + (k - 1) \div b, k - b * ((k - 1) \div b))]
Pairs == LET c == Len(Left) IN SelectSeq(Grid(c, c, LAMBDA i, j : <<i, j>>), LAMBDA y : Has1(Part, Left[y[1]]) \/ Has1(Part, Left[y[2]]))
Ones == SelectSeq([i \in DOMAIN Left |-> i], LAMBDA i : Has1(Part, Left[i]))
Ops == Grid(Len(Binaries), Len(Pairs), LAMBDA o, y : Ev(Two(Binaries[o], Left[Pairs[y][1]], Left[Pairs[y][2]])))
       \o Grid(Len(Unaries), Len(Ones), LAMBDA o, i : Ev(Solo(Unaries[o], Left[Ones[i]])))

Set3(nm, vt, v) == [k |-> "set", name |-> nm, vt |-> vt, v |-> v]
IntOptions == <<"explode depth", "maximum function depth", "DEFAULT_OUTPUT_WIDTH">>
Flags == <<"RV_TRUNC", "RV_IGNORE_ZERO_PROBS">>
Orders == <<"highest first", "lowest first", "lowest">>
Whole == <<-1, 0, 1, 3>>
Bools == <<TRUE, FALSE>>
Words == <<"True", "fAlSe", "yes">>
SetCalls ==
  [i \in 1..3 |-> Set3("position order", "str", Orders[i])]
  \o Grid(3, 4, LAMBDA o, i : Set3(IntOptions[o], "int", Whole[i]))
  \o [i \in 1..3 |-> Set3(IntOptions[i], "str", "3")]
  \o Grid(2, 2, LAMBDA o, i : Set3(Flags[o], "bool", Bools[i]))
  \o Grid(2, 3, LAMBDA o, i : Set3(Flags[o], "str", Words[i]))
  \o <<Set3("DEFAULT_PRINT_FN", "fn", 1), Set3("DEFAULT_PRINT_FN", "int", 3), Set3("no such option", "int", 1), Set3("POSITION ORDER", "str", "lowest first"), [k |-> "reset"]>>

MemoDice == <<RV(<<<<0, 1>>, <<1, 1>>>>, <<1, 1>>), RV(<<<<0, 1>>, <<1, 1>>>>, <<1, 2>>), RV(<<<<0, 1>>, <<1, 1>>, <<2, 1>>>>, <<1, 1, 0>>), RV(<<<<0, 1>>, <<3, 2>>>>, <<1, 1>>), RV(<<<<-1, 1>>, <<1, 1>>>>, <<1, 1>>),
              RV(<<<<-2, 1>>, <<1, 1>>>>, <<1, 1>>)>>
Counts == <<1, 2, 3, -2>>
MemoCalls ==
  Grid(4, Len(MemoDice), LAMBDA k, i : Ev(RollE(Num(Counts[k]), MemoDice[i])))
  \o Grid(2, Len(MemoDice), LAMBDA k, i : Ev(Two("at", Num(1), RollE(Num(k + 1), MemoDice[i]))))
  \o Grid(2, Len(MemoDice), LAMBDA k, i : Ev(Two("at", SeqE(<<1, 2>>), RollE(Num(k + 1), MemoDice[i]))))
MemoSets == <<Set3("position order", "str", "lowest first"), Set3("RV_TRUNC", "bool", TRUE), Set3("RV_IGNORE_ZERO_PROBS", "bool", TRUE), [k |-> "reset"]>>

Do(e) == CASE e.k = "ev" -> DoEval(e.e) [] e.k = "set" -> DoSet(e.name, e.vt, e.v) [] e.k = "reset" -> DoReset
Alphabet == CASE Kind = "ops" -> Ops [] Kind = "settings" -> SetCalls
              [] Kind = "memo" -> IF Len(log) \in {0, 2} THEN MemoSets ELSE MemoCalls
Init == SInit /\ log = <<>>
Next == Len(log) < Steps /\ \E i \in DOMAIN Alphabet : Do(Alphabet[i]) /\ log' = Append(log, Alphabet[i])
Emit == Len(log) = Steps => PrintT("SCRIPT " \o ToJson(log))

(* every specified answer is a proper value *)
ProperDist(f) == DOMAIN f # {} /\ (\A x \in DOMAIN f : f[x] \in 0..(M - 1))
Proper(v) == CASE v.t = "d" -> ProperDist(v.f) /\ ProperDist(v.src) /\ v.n >= 1
               [] v.t = "n" -> TRUE [] v.t = "s" -> TRUE [] v.t = "b" -> v.sp \in BOOLEAN
               [] OTHER -> v.t \in {"err", "none", "any"}
ProperAnswer == Proper(resp)
ProperSettings == /\ st.trunc \in BOOLEAN /\ st.ign \in BOOLEAN /\ st.order \in {"hi", "lo"}
                  /\ st.explode > 0 /\ st.maxdepth > 0 /\ st.width > 0 /\ st.printer \in 0..3
(* the settings are what the last accepted call of each option since the last reset said *)
Field(nm) == CASE nm = "position order" -> "order" [] nm = "explode depth" -> "explode" [] nm = "maximum function depth" -> "maxdepth"
               [] nm = "DEFAULT_OUTPUT_WIDTH" -> "width" [] nm = "RV_TRUNC" -> "trunc" [] nm = "RV_IGNORE_ZERO_PROBS" -> "ign" [] nm = "DEFAULT_PRINT_FN" -> "printer" [] OTHER -> "-"
LastSays(f) ==
  LET rs == {i \in DOMAIN log : log[i].k = "reset"}
      from == IF rs = {} THEN 0 ELSE CHOOSE i \in rs : \A j \in rs : j <= i
      ok == {i \in DOMAIN log : i > from /\ log[i].k = "set" /\ ValidSet(log[i].name, log[i].vt, log[i].v) /\ Field(log[i].name) = f}
  IN IF ok = {} THEN Default[f] ELSE LET i == CHOOSE j \in ok : \A m \in ok : m <= j IN Apply(Default, log[i].name, log[i].vt, log[i].v)[f]
LastWins == \A f \in DOMAIN Default : st[f] = LastSays(f)
=============================================================================
