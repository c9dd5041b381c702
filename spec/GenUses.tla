------------------------------ MODULE GenUses ------------------------------
(***************************************************************************)
(* Enumerates uses of dice within small scopes, as histories for the real    *)
(* code (one event, or a settings call followed by one event):               *)
(*   rolls     every count on every thing that can be rolled, also twice     *)
(*   mixes     every mixture of two or three things with small weights       *)
(*   select    every position and positions of every small pool, both orders *)
(*   casts     every parameter type, argument and small body; two parameters *)
(*   expand    every die of a pool seen as its rolls, told apart by place    *)
(*   library   every library function on every argument                      *)
(*   describe  the text of nested rolls                                      *)
(*   facts     statistics of every small die                                 *)
(*   share     a value, then two uses of it (that must leave it alone)       *)
(* Along the way TLC checks that every specified answer is a proper value    *)
(* and that the averages it specifies lie between the outcomes.              *)
(***************************************************************************)
EXTENDS GenSession
Fct(f, e) == [k |-> "fact", f |-> f, e |-> e]
Cat2(F(_, _), P1, P2) == Grid(Len(P1), Len(P2), LAMBDA i, j : F(P1[i], P2[j]))
Nums(S0) == LET q == Sorted({I(i) : i \in S0}) IN [i \in DOMAIN q |-> Num(q[i][1])]
Param(i) == [op |-> "p", i |-> i]
Listing(q) == [op |-> "seq", c |-> 0, a |-> q]

(* --- rolls --- *)
D3 == RV(<<<<-1, 1>>, <<2, 1>>, <<3, 2>>>>, <<1, 2, 1>>)
Cnts == Nums(-3..3) \o <<Frac(3, 2), SeqE(<<>>), SeqE(<<2>>), SeqE(<<1, 1>>), SeqE(<<-2>>), BlankE, OtherBlank,
                         RV(<<<<0, 1>>, <<2, 1>>>>, <<1, 1>>), RV(<<<<-1, 1>>, <<1, 1>>, <<3, 1>>>>, <<1, 2, 1>>), RV(<<<<2, 1>>>>, <<1>>), RollE(Num(1), Num(2)), RV(<<<<1, 2>>, <<1, 1>>>>, <<1, 1>>)>>
Rollables == Nums({-3, -1, 0, 1, 2, 3}) \o <<Frac(1, 2), SeqE(<<>>), SeqE(<<4>>), SeqE(<<1, 1, 5>>), SeqE(<<-1, 0>>), Listing(<<Frac(1, 2), Num(2)>>), BlankE, OtherBlank,
                                         D3, RV(<<<<0, 1>>, <<2, 1>>>>, <<0, 1>>), RV(<<<<0, 1>>>>, <<1>>), RV(<<<<5, 1>>>>, <<3>>), RollE(Num(2), Num(2)), RollE(Num(-1), Num(2))>>
RollOf(a, b) == Ev(RollE(a, b))
RollOne(a) == Ev([op |-> "roll", a |-> <<a>>])
Rolls1 == Cat2(RollOf, Cnts, Rollables) \o [i \in DOMAIN Rollables |-> RollOne(Rollables[i])]
Rolls2 == Cat2(LAMBDA a, b : Ev(RollE(a, RollE(b, Num(2)))), Nums(-2..2), Nums(-2..3)) \o Cat2(LAMBDA a, b : Ev(RollE(RollE(a, Num(2)), b)), Nums(-1..2), <<Num(2), SeqE(<<1, 4>>), D3>>)
          \o Cat2(LAMBDA a, b : Ev(RollE(a, [op |-> "mix", a |-> <<D3, b>>, w |-> <<1, 2>>])), Nums(-1..3), <<Num(3), RollE(Num(2), Num(2)), BlankE>>)

(* --- mixes --- *)
Parts == <<Num(0), Num(2), Frac(3, 2), SeqE(<<1, 2>>), SeqE(<<>>), RollE(Num(1), Num(2)), D3, RV(<<<<0, 1>>, <<2, 1>>>>, <<0, 1>>), RV(<<<<2, 1>>>>, <<4>>), BlankE, OtherBlank, [op |-> "none"]>>
MixE(q, w) == Ev([op |-> "mix", a |-> q, w |-> w])
Mixes == LET c == Len(Parts) IN
         [i \in 1..c |-> MixE(<<Parts[i]>>, <<2>>)]
         \o Grid(c * c, 6, LAMBDA y, k : MixE(<<Parts[1 + (y - 1) \div c], Parts[1 + ((y - 1) % c)]>>, <<1 + (k - 1) \div 3, 1 + ((k - 1) % 3)>>))
         \o Grid(c * c, c, LAMBDA y, k : MixE(<<Parts[1 + (y - 1) \div c], Parts[1 + ((y - 1) % c)], Parts[k]>>, <<1 + (y % 2), 1 + (k % 3), 1>>))

(* --- select --- *)
PoolDice == <<Num(2), Num(3), Num(-2), D3, RV(<<<<0, 1>>, <<4, 1>>>>, <<2, 1>>), RV(<<<<0, 1>>, <<1, 1>>, <<2, 1>>>>, <<1, 0, 2>>), SeqE(<<1, 1, 2>>)>>
Pools == Cat2(RollE, Nums(1..3), PoolDice) \o <<RollE(Num(4), Num(2)), D3, RV(<<<<3, 1>>>>, <<1>>), RollE(Num(-2), Num(2)), RollE(Num(2), RollE(Num(2), Num(2)))>>
Poss == Nums(-1..4) \o [k \in 1..25 |-> SeqE(<<(k - 1) \div 5, (k - 1) % 5>>)] \o <<SeqE(<<>>), SeqE(<<3, 2, 1>>), SeqE(<<1, 1, 2>>), SeqE(<<2, 2, 2>>), SeqE(<<1, 2, 3, 4>>), SeqE(<<1, 2, 2, 1>>), SeqE(<<-1, 1>>),
        RV(<<<<1, 1>>, <<2, 1>>>>, <<1, 2>>), [op |-> "range", lo |-> 1, hi |-> 2]>>
Selects == Cat2(LAMBDA p, q : Ev([op |-> "at", a |-> <<p, q>>, my |-> 1]), Poss, Pools)
OrderSets == <<[k |-> "reset"], Set3("position order", "str", "lowest first")>>

(* --- casts --- *)
Types == <<"N", "S", "D", "-">>
Fn(tys, body) == [ty |-> tys, dec |-> "cast", body |-> body, rec |-> 1]
CallE(fn, q) == Ev([op |-> "call", fn |-> fn, a |-> q])
Args == <<Num(0), Num(3), Num(-2), Frac(3, 2), SeqE(<<>>), SeqE(<<2>>), SeqE(<<1, 3, 3>>), BlankE, OtherBlank, RollE(Num(1), Num(2)), RollE(Num(2), Num(2)), D3, RV(<<<<2, 1>>>>, <<1>>), RollE(Num(2), D3), RV(<<<<0, 1>>, <<3, 1>>>>, <<0, 2>>)>>
AsNum == Param(1)
Bodies1(ty) ==
  <<Param(1), [op |-> "add", a |-> <<Param(1), Num(1)>>], [op |-> "eq", a |-> <<Param(1), Num(2)>>], Num(7), Listing(<<Param(1), Num(4)>>), RollE(Num(2), Num(2)), BlankE, [op |-> "none"]>>
  \o (IF ty = "N" THEN <<[op |-> "if", c |-> [op |-> "gt", a |-> <<Param(1), Num(1)>>], a |-> <<RollE(Num(1), Num(2)), Num(9)>>], RollE(Param(1), Num(2)),
                         [op |-> "if", c |-> Param(1), a |-> <<Num(1), [op |-> "none"]>>], [op |-> "if", c |-> Param(1), a |-> <<BlankE, Param(1)>>]>> ELSE <<>>)
  \o (IF ty = "S" THEN <<[op |-> "len", a |-> <<Param(1)>>, my |-> 1], Two("at", Num(1), Param(1)), Two("at", Num(2), Param(1)), Two("at", SeqE(<<1, 2>>), Param(1)), [op |-> "lib", f |-> "reverse", a |-> <<Param(1)>>]>> ELSE <<>>)
  \o (IF ty = "D" THEN <<[op |-> "len", a |-> <<Param(1)>>, my |-> 1], RollE(Num(2), Param(1)), Two("at", Num(1), Param(1))>> ELSE <<>>)
Casts1 == FlattenSeq([t \in DOMAIN Types |-> Cat2(LAMBDA b, y : CallE(Fn(<<Types[t]>>, b), <<y>>), Bodies1(Types[t]), Args)])
Bodies2 == <<[op |-> "add", a |-> <<Param(1), Param(2)>>], [op |-> "lt", a |-> <<Param(1), Param(2)>>], Listing(<<Param(2), Param(1)>>), [op |-> "sub", a |-> <<Param(2), Param(1)>>]>>
TyPairs == Grid(4, 4, LAMBDA i, j : <<Types[i], Types[j]>>)
ArgPairs == LET c == Len(Args) IN Grid(c, c, LAMBDA i, j : <<Args[i], Args[j]>>)
Casts2 == FlattenSeq([t \in DOMAIN TyPairs |-> Cat2(LAMBDA b, y : CallE(Fn(TyPairs[t], b), y), IF Steps > 1 THEN Bodies2 ELSE <<Bodies2[1 + (t % 4)]>>, ArgPairs)])

(* --- expand --- *)
Place(i) == Two("at", Num(i), Param(1))
Weighted == [op |-> "add", a |-> <<[op |-> "mul", a |-> <<Place(1), Num(7)>>], [op |-> "add", a |-> <<[op |-> "mul", a |-> <<Place(2), Num(3)>>], Place(3)>>]>>]
ExpandBodies == <<Weighted, Param(1), Place(1), Place(2), Place(3), [op |-> "eq", a |-> <<Param(1), Num(2)>>], [op |-> "ge", a |-> <<Param(1), SeqE(<<2, 1>>)>>],
                  [op |-> "if", c |-> [op |-> "eq", a |-> <<Place(1), Place(2)>>], a |-> <<Place(1), BlankE>>], [op |-> "lib", f |-> "sort", a |-> <<Param(1)>>], Two("at", SeqE(<<2, 3>>), Param(1))>>
ExpandDice == <<Num(2), Num(3), Num(-2), Num(1), D3, RV(<<<<0, 1>>, <<4, 1>>>>, <<2, 1>>), RV(<<<<0, 1>>, <<1, 1>>, <<2, 1>>>>, <<1, 0, 2>>), SeqE(<<1, 1, 2>>), SeqE(<<5, -1>>)>>
ExpandPools == Cat2(RollE, Nums(-2..4), ExpandDice) \o <<RollE(Num(2), RollE(Num(2), Num(2))), Two("at", SeqE(<<1, 2>>), RollE(Num(3), Num(2))), [op |-> "neg", a |-> <<RollE(Num(2), Num(2))>>], [op |-> "add", a |-> <<RollE(Num(2), Num(2)), Num(1)>>],
                                                     [op |-> "mix", a |-> <<RollE(Num(2), Num(2)), RollE(Num(3), Num(2))>>, w |-> <<1, 1>>]>>
Expands == Cat2(LAMBDA b, q : CallE(Fn(<<"S">>, b), <<q>>), ExpandBodies, ExpandPools)

(* --- library --- *)
LibArgs == <<Num(0), Num(1), Num(2), Num(-3), Frac(3, 2), SeqE(<<>>), SeqE(<<2, 3, 1>>), SeqE(<<1, 1>>), RollE(Num(1), Num(2)), RollE(Num(3), Num(2)), RollE(Num(2), D3), D3, RV(<<<<2, 1>>>>, <<1>>), RV(<<<<0, 1>>, <<2, 1>>>>, <<1, 0>>),
             RV(<<<<0, 1>>, <<4, 1>>>>, <<0, 1>>), BlankE, OtherBlank>>
Lib1 == Cat2(LAMBDA f, y : Ev([op |-> "lib", f |-> f, a |-> <<y>>]), <<"absolute", "reverse", "sort", "maximum_of", "explode">>, LibArgs)
        \o Cat2(LAMBDA d, y : Ev([op |-> "lib", f |-> "explode", a |-> <<y>>, depth |-> d]), <<0, 1, 3>>, LibArgs)
Lib2 == LET c == Len(LibArgs) IN Cat2(LAMBDA f, y : Ev([op |-> "lib", f |-> f, a |-> y]), <<"contains", "count_in", "highest", "lowest", "middle", "highest_of", "lowest_of">>, Grid(c, c, LAMBDA i, j : <<LibArgs[i], LibArgs[j]>>))

(* --- describe --- *)
Leaves == Nums(-2..3) \o <<SeqE(<<>>), SeqE(<<3>>), SeqE(<<1, 2>>), D3, BlankE, OtherBlank, RV(<<<<2, 1>>>>, <<1>>), [op |-> "range", lo |-> 1, hi |-> 3], [op |-> "neg", a |-> <<RollE(Num(2), Num(3))>>], [op |-> "add", a |-> <<RollE(Num(2), Num(3)), Num(1)>>],
                          [op |-> "mix", a |-> <<RollE(Num(2), Num(3)), Num(1)>>, w |-> <<1, 1>>], Two("at", Num(1), RollE(Num(2), Num(3)))>>
DCounts == Nums(-3..3) \o <<SeqE(<<>>), SeqE(<<2>>), SeqE(<<1, 1>>), SeqE(<<-2>>), RV(<<<<1, 1>>, <<2, 1>>>>, <<1, 1>>), RV(<<<<2, 1>>>>, <<1>>), BlankE>>
Nest1 == Cat2(RollE, DCounts, Leaves) \o [i \in DOMAIN Leaves |-> [op |-> "roll", a |-> <<Leaves[i]>>]]
Str(e) == Fct("str", e)
Describes == [i \in DOMAIN Nest1 |-> Str(Nest1[i])] \o Cat2(LAMBDA a, b : Str(RollE(a, b)), Nums(-2..3), Nest1) \o Cat2(LAMBDA a, b : Str(RollE(b, a)), <<Num(2), SeqE(<<1, 2>>)>>, SelectSeq(Nest1, LAMBDA e : Len(e.a) = 2 /\ e.a[2] \in {Num(2), Num(3), Num(1), Num(0)}))

(* --- facts --- *)
StatVals == << <<-3, 2>>, <<-1, 1>>, <<0, 1>>, <<1, 1>>, <<5, 2>>, <<4, 1>> >>
Pick(q, S0) == SelectSeq([i \in DOMAIN q |-> i], LAMBDA i : i \in S0)
StatSets == SetToSeq({S0 \in SUBSET (1..Len(StatVals)) : Cardinality(S0) \in 1..3})
WtsOf(k) == SetToSeq({w \in [1..k -> {0, 1, 3}] : \E i \in 1..k : w[i] > 0})
StatDice == FlattenSeq([s \in DOMAIN StatSets |-> LET ix == Pick(StatVals, StatSets[s])  ws == WtsOf(Len(ix)) IN [k \in DOMAIN ws |-> RV([i \in DOMAIN ix |-> StatVals[ix[i]]], ws[k])]])
StatFacts == <<"mean", "std", "pairs", "cdf">>
Facts == Cat2(LAMBDA f, e : Fct(f, e), StatFacts, StatDice) \o Cat2(LAMBDA y, e : Ev([op |-> "filter", a |-> <<e, y>>]), <<Num(1), SeqE(<<-1, 4>>)>>, StatDice)

(* --- share --- *)
X1 == [op |-> "x", i |-> 1]
Shared == <<D3, RV(<<<<0, 1>>, <<2, 1>>, <<4, 1>>>>, <<1, 0, 3>>), RollE(Num(2), Num(3)), RollE(Num(3), D3), RollE(Num(1), Num(4)), RollE(Num(-2), Num(2)), SeqE(<<3, 1, 2>>), SeqE(<<>>), BlankE, RV(<<<<2, 1>>>>, <<3>>), Two("at", Num(1), RollE(Num(2), Num(2)))>>
ShareUses ==
  [i \in 1..5 |-> Ev(RollE(Num(i - 2), X1))] \o <<RollOne(X1)>>
  \o [i \in DOMAIN Unaries |-> Ev(Solo(Unaries[i], X1))]
  \o [i \in DOMAIN Binaries |-> Ev(Two(Binaries[i], X1, Num(2)))] \o [i \in DOMAIN Binaries |-> Ev(Two(Binaries[i], Num(1), X1))] \o [i \in DOMAIN Binaries |-> Ev(Two(Binaries[i], X1, X1))]
  \o <<Ev(Two("at", SeqE(<<1, 2>>), X1)), MixE(<<X1, Num(1)>>, <<1, 2>>), MixE(<<X1>>, <<3>>), MixE(<<X1, X1>>, <<1, 1>>), Ev(Listing(<<X1, Num(5)>>)), Ev([op |-> "filter", a |-> <<X1, Num(2)>>]), Ev([op |-> "fromseq", a |-> <<X1>>])>>
  \o [t \in 1..4 |-> CallE([ty |-> <<Types[t]>>, dec |-> "cast", body |-> Param(1)], <<X1>>)]
  \o [i \in 1..5 |-> Ev([op |-> "lib", f |-> <<"absolute", "reverse", "sort", "maximum_of", "explode">>[i], a |-> <<X1>>])]
  \o [i \in 1..3 |-> Ev([op |-> "lib", f |-> <<"highest", "lowest", "middle">>[i], a |-> <<Num(1), X1>>])]
SharedQ == TLCEval(Shared)
UsesQ == TLCEval(ShareUses)
ShareNext == IF log = <<>> THEN \E i \in DOMAIN SharedQ : DoEval(SharedQ[i]) /\ log' = <<Ev(SharedQ[i])>>
             ELSE Len(log) < Steps + 1 /\ \E i \in DOMAIN UsesQ : Do(UsesQ[i]) /\ log' = Append(log, UsesQ[i])
(* what was obtained before is still the same *)
Keeps == [][SubSeq(store', 1, Len(store)) = store]_gvars

UsesOf == CASE Kind = "rolls" -> Rolls1 \o Rolls2 [] Kind = "mixes" -> Mixes [] Kind = "casts" -> Casts1 \o Casts2 [] Kind = "expand" -> Expands [] Kind = "library" -> Lib1 \o Lib2
            [] Kind = "describe" -> Describes [] Kind = "facts" -> Facts [] Kind = "select" -> Selects
Uses == TLCEval(UsesOf)
(* the first step of select says the order of positions *)
UDo(e) == IF e.k = "fact" THEN resp' = None /\ UNCHANGED <<st, store>> ELSE Do(e)
Fresh == DoReset /\ log' = <<[k |-> "reset"]>>
UNext == IF Kind = "share" THEN ShareNext
         ELSE IF log = <<>> THEN (\E i \in DOMAIN OrderSets : (i = 1 \/ Kind \in {"select", "library"}) /\ Do(OrderSets[i]) /\ log' = <<OrderSets[i]>>)
         ELSE Len(log) = 1 /\ \E i \in DOMAIN Uses : UDo(Uses[i]) /\ log' = Append(log, Uses[i])
UEmit == Len(log) = (IF Kind = "share" THEN Steps + 1 ELSE 2) => PrintT("SCRIPT " \o ToJson(log))
=============================================================================
