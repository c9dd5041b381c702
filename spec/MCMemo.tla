------------------------------- MODULE MCMemo -------------------------------
(***************************************************************************)
(* Memoising is harmless when the key holds everything the answer depends   *)
(* on: a session whose calls are answered from a memo, filled in any order   *)
(* under any settings, always gives the answer the call has by itself.       *)
(* Variant names what the key forgets; the checker must find the confusion.  *)
(***************************************************************************)
EXTENDS Session
CONSTANTS Variant, Cap
VARIABLES memo, want
mvars == <<st, store, resp, memo, want>>
Num(i) == [op |-> "n", v |-> <<i, 1>>]
DieE(vs, ws) == [op |-> "rv", v |-> vs, w |-> ws]
DiceE == <<DieE(<<<<0, 1>>, <<1, 1>>>>, <<1, 1>>), DieE(<<<<0, 1>>, <<1, 1>>>>, <<1, 2>>), DieE(<<<<0, 1>>, <<3, 2>>>>, <<1, 1>>), DieE(<<<<0, 1>>, <<1, 1>>, <<2, 1>>>>, <<1, 1, 0>>)>>
Counts == <<2, 3>>
Positions == <<0, 1>>          \* 0: the sum
Calls1 == [c : 1..2, d : 1..4, p : 1..2]
ExprOf(c) == LET r == [op |-> "roll", a |-> <<Num(Counts[c.c]), DiceE[c.d]>>]
             IN IF Positions[c.p] = 0 THEN r ELSE [op |-> "at", a |-> <<Num(Positions[c.p]), r>>, my |-> 1]
(* the distribution the operand has under the settings it is made under *)
Operand(c) == Eval(DiceE[c.d], TopEnv(<<>>), st)
Key(c) ==
  LET f == Operand(c).f
      forget(x, what) == IF Variant = what THEN 0 ELSE x
  IN <<forget(Counts[c.c], "count"), IF Variant = "weights" THEN DOMAIN f ELSE f, forget(c.p, "kind"),
       IF Variant = "settings" THEN <<>> ELSE IF Variant = "order" THEN <<st.trunc, st.ign>> ELSE <<st.trunc, st.ign, st.order>>>>
Answer(c) == Eval(ExprOf(c), TopEnv(<<>>), st)
Init == SInit /\ memo = {} /\ want = None
Call(c) ==
  LET k == Key(c)
      hit == {m \in memo : m[1] = k}
      own == Answer(c)
      given == IF hit = {} THEN own ELSE (CHOOSE m \in hit : TRUE)[2]
  IN /\ resp' = given /\ want' = own
     /\ memo' = (IF hit = {} THEN memo \cup {<<k, own>>} ELSE memo)
     /\ UNCHANGED <<st, store>>
Change == /\ \E x \in {<<"position order", "str", "lowest first">>} \cup {<<nm, "bool", TRUE>> : nm \in {"RV_TRUNC", "RV_IGNORE_ZERO_PROBS"}} : DoSet(x[1], x[2], x[3])
          /\ want' = resp' /\ memo' = memo
Next == \/ Cardinality(memo) < Cap /\ \E c \in Calls1 : Call(c)
        \/ Change
        \/ st # Default /\ DoReset /\ want' = resp' /\ memo' = memo
Spec == Init /\ [][Next]_mvars
SameAnswer == resp = want
=============================================================================
