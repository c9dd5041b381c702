------------------------------ MODULE GenText ------------------------------
(***************************************************************************)
(* Enumerates every text of a pattern: one choice from each slot in turn.   *)
(*   pairs    two binary operators between three operands                   *)
(*   triples  three of them                                                 *)
(*   unary    prefix operators around one binary operator                   *)
(*   tokens   everything that can be written with Size tokens after output  *)
(*   lines    everything that can be written with Size tokens before it     *)
(*   scopes   functions of two statements among assignments of the same names *)
(*   flow     branches inside loops inside branches                         *)
(*   heads    two functions of similar heads, two calls                     *)
(*   words    two functions of one word each that may mean something else   *)
(*   vars     variables of similar names                                    *)
(*   decls    parameter types, bodies and arguments of a function           *)
(*   sets     settings between outputs                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Kind, Size
VARIABLE done
Bin == {"|", "&", "=", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "^", "@", "d"}
Pre == {"", "-", "!", "d", "#", "+"}
Tok == {"1", "2", "-", "d", "@", "#", "!", "(", ")", "{", "}", "..", ",", ":", "\"a\"", "named"}
Word == {"X", ":", "1", "output", "if", "{", "}", "else", "loop", "over", "function", "f", "result", "set"}
Few == {"X", ":", "1", "{", "}", "output"}
FnStmt == {"", "X: P+10", "P: 5", "X: X+1", "output X", "output P", "result: X", "result: P", "if P > 1 { X: 7 }", "if P > 1 { result: 3 }", "loop X over {4,5} { }",
           "loop I over {1,2} { result: I+P }", "loop I over {1,2} { if I = P { result: 9 } X: I }", "X: [g P]", "result: [g X]"}
MainStmt == {"", "X: 8", "X: [f 3]", "output [f 1d2]", "output [f {1,2}]", "loop X over {1,2} { output [f X] }", "if X > 2 { output [f X] } else { X: 3 }", "P: [f 1] output P"}
Simple == {"", "X: X+1", "Y: X", "output X", "output Y"}
Outer == {"if 1=1 {", "loop X over {1..3} {", "loop Y over {2,{3,3}} {", "if X {", "if Y=1 { output 8 } else {", "loop X over {} {", "loop Y over X {"}
Inner == {"if X=2 { output X } else if Y { Y: Y+1 } else { output 9 }", "loop Y over {X,5} { output X+Y }", "if Y { if X { output 1 } } else { output 2 }",
          "loop X over {X,Y} { if X { Y: Y+X } }", "if X > Y { X: 5 Y: 6 } else if X = Y { Y: 7 }"}
FnHead == {"f", "f X", "f X g", "f g X", "fg X", "f X Y", "f X:n", "X f", "g f X", "g X", "f X g Y", "f XY", "f XX"}
Call == {"[f]", "[f 1]", "[f 1 g]", "[f g 1]", "[fg 1]", "[f 1 2]", "[1 f]", "[g f 1]", "[g 1]", "[f 1 g 2]"}
PyWord == {"print", "def", "class", "in", "is", "not", "roll", "none", "max", "f", "absolute", "explode", "v", "lambda", "settings", "contains", "of", "highest", "r", "x"}
VarName == {"A", "AB", "A_B", "A_", "_A", "B", "_", "AA", "P"}
Slots ==
  CASE Kind = "pairs" -> << {"output "}, {"2", "{2,1}", "1d2"}, Bin, {"3"}, Bin, {"5", "{1,3}"} >>
    [] Kind = "triples" -> << {"output 3"}, Bin, {"2"}, Bin, {"4"}, Bin, {"1"} >>
    [] Kind = "unary" -> << {"output "}, Pre, Pre, {"2"}, Bin, Pre, {"3"} >>
    [] Kind = "tokens" -> << {"output "} >> \o [i \in 1..Size |-> Tok]
    [] Kind = "lines" -> [i \in 1..Size |-> Word] \o << {"output 1"} >>
    [] Kind = "scopes" -> << {"function: g P:n { result: P*2 }"}, {"", "X: 2", "X: {1,2}", "X: 1d2"}, {"function: f P {", "function: f P:n {", "function: f P:s {", "function: f P:d {"}, FnStmt, FnStmt, {"}"}, MainStmt, {"output [f 2] output X"} >>
    [] Kind = "flow" -> << {"X: 0", "X: 2", "X: {2,1}"}, {"Y: 1"}, Outer, Simple, Inner, Simple, {"}"}, {"output X"}, {"output Y"} >>
    [] Kind = "heads" -> << {"function:"}, FnHead, {"{ result: 1 }"}, {"function:"}, FnHead, {"{ result: 2 }"}, {"output"}, Call, {"output"}, Call >>
    [] Kind = "words" -> << {"function:"}, PyWord, {"X { result: X+1 }"}, {"function:"}, PyWord, {"X { result: X+2 }"}, {"output ["}, PyWord, {"5]"} >>
    [] Kind = "vars" -> << VarName, {": 1"}, VarName, {": 2 function: f"}, VarName, {"{ result:"}, VarName, {"} output [f 7] output"}, VarName >>
    [] Kind = "decls" -> << {"function: f A"}, {"", ":n", ":s", ":d"}, {"B"}, {"", ":n", ":s", ":d"}, {"{ result:"}, {"A+B", "A@B", "#A", "A=B", "{A,B}", "AdB", "1@A+B", "B", "A d d B"}, {"} output [f"},
                           {"2", "{1,2}", "1d2", "2d2", "{}", "d{}", "-1"}, {"3", "{2,0}", "2d{1,3}", "{}", "d{}"}, {"]"} >>
    [] Kind = "sets" -> << {"set"}, {"\"position order\" to \"lowest first\"", "\"explode depth\" to 3", "\"maximum function depth\" to 2", "\"explode depth\" to 0", "\"position order\" to 1", "\"RV_TRUNC\" to \"True\"", "\"no such\" to 1"},
                          {"output 1@2d2", "output [explode d2]", "function: f N:n { result: 1 + [f N] } output [f 1]", "output 3d2/2"}, {"", "set"},
                          {"", "\"position order\" to \"highest first\"", "\"explode depth\" to 1", "\"maximum function depth\" to 4", "\"explode depth\" to \"2\"", "\"maximum function depth\" to 1d2"},
                          {"output 1@{3,2,1}+1@2d2", "output [explode 1d2]", "function: h N:n { result: 1 + [h N] } output [h 1]"} >>
    [] Kind = "blocks" -> << {"X: 1 "} >> \o [i \in 1..Size |-> Few] \o << {"output X"} >>
Sep == IF Kind \notin {"pairs", "triples", "unary"} THEN " " ELSE ""
RECURSIVE Texts(_)
Texts(i) == IF i = 0 THEN {""} ELSE LET pre == Texts(i - 1) IN {(IF p = "" THEN "" ELSE p \o Sep) \o c : p \in pre, c \in Slots[i]}
All == Texts(Len(Slots))
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ \A t \in All : PrintT("SCRIPT " \o ToJson(<<t>>))
=============================================================================
