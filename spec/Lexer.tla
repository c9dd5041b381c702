------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* The dice language's tokens.  A text is a sequence of character codes; a  *)
(* token is [k |-> kind, s |-> characters].  Kinds: "num", "low" (a lower-  *)
(* case word), "up" (a variable), "d", one kind per reserved word and per   *)
(* operator, and the pieces of a string: "sany" (plain characters) and      *)
(* "svar" ([VAR] in a string).  Spaces, line breaks and comments between    *)
(* tokens vanish; anything else makes the text illegal.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Reserved ==
  << <<"output", <<111, 117, 116, 112, 117, 116>> >>, <<"function", <<102, 117, 110, 99, 116, 105, 111, 110>> >>,
     <<"loop", <<108, 111, 111, 112>> >>, <<"over", <<111, 118, 101, 114>> >>, <<"named", <<110, 97, 109, 101, 100>> >>,
     <<"set", <<115, 101, 116>> >>, <<"to", <<116, 111>> >>, <<"if", <<105, 102>> >>, <<"else", <<101, 108, 115, 101>> >>,
     <<"result", <<114, 101, 115, 117, 108, 116>> >>, <<"d", <<100>> >> >>
WordKind(s) == IF \E i \in DOMAIN Reserved : Reserved[i][2] = s
               THEN Reserved[CHOOSE i \in DOMAIN Reserved : Reserved[i][2] = s][1] ELSE "low"
Single(c) ==
  CASE c = 43 -> "+" [] c = 45 -> "-" [] c = 42 -> "*" [] c = 47 -> "/" [] c = 94 -> "^" [] c = 58 -> ":" [] c = 60 -> "<" [] c = 62 -> ">"
    [] c = 61 -> "=" [] c = 64 -> "@" [] c = 35 -> "#" [] c = 124 -> "|" [] c = 38 -> "&" [] c = 33 -> "!" [] c = 46 -> "." [] c = 44 -> ","
    [] c = 40 -> "(" [] c = 41 -> ")" [] c = 123 -> "{" [] c = 125 -> "}" [] c = 91 -> "[" [] c = 93 -> "]" [] OTHER -> "illegal"
(* a digit may be written in several scripts (the zeros of: ASCII, Arabic, Persian, Devanagari, full-width); the token holds plain ones *)
Zeros == {48, 1632, 1776, 2406, 65296}
IsDigit(c) == \E z \in Zeros : c >= z /\ c <= z + 9
PlainDigit(c) == LET z == CHOOSE y \in Zeros : c >= y /\ c <= y + 9 IN 48 + (c - z)
IsLow(c) == c >= 97 /\ c <= 122
IsUp(c) == (c >= 65 /\ c <= 90) \/ c = 95
IsStr(c) == c # 10 /\ c # 34 /\ c # 91

(* first position at or after i whose character is not in the class *)
RECURSIVE RunEnd(_, _, _)
InClass(cl, c) == CASE cl = "digit" -> IsDigit(c) [] cl = "low" -> IsLow(c) [] cl = "up" -> IsUp(c) [] cl = "str" -> IsStr(c) [] cl = "notback" -> c # 92
RunEnd(t, i, cl) == IF i > Len(t) THEN i ELSE IF InClass(cl, t[i]) THEN RunEnd(t, i + 1, cl) ELSE i

Tok(k, t, i, j) == [k |-> k, s |-> SubSeq(t, i, j - 1)]
Illegal == [ok |-> FALSE, toks |-> <<>>]
RECURSIVE LexAt(_, _, _)
RECURSIVE LexStr(_, _, _)
LexAt(t, i, acc) ==
  IF i > Len(t) THEN [ok |-> TRUE, toks |-> acc]
  ELSE LET c == t[i]
           nx == IF i < Len(t) THEN t[i + 1] ELSE 0
       IN IF c \in {32, 9, 10} THEN LexAt(t, i + 1, acc)
          ELSE IF c = 92 THEN (LET j == RunEnd(t, i + 1, "notback") IN IF j > Len(t) THEN Illegal ELSE LexAt(t, j + 1, acc))
          ELSE IF IsDigit(c) THEN (LET j == RunEnd(t, i, "digit") IN LexAt(t, j, Append(acc, [k |-> "num", s |-> [x \in 1..(j - i) |-> PlainDigit(t[i + x - 1])]])))
          ELSE IF IsLow(c) THEN (LET j == RunEnd(t, i, "low") IN LexAt(t, j, Append(acc, Tok(WordKind(SubSeq(t, i, j - 1)), t, i, j))))
          ELSE IF IsUp(c) THEN (LET j == RunEnd(t, i, "up") IN LexAt(t, j, Append(acc, Tok("up", t, i, j))))
          ELSE IF c = 34 THEN LexStr(t, i + 1, acc)
          ELSE IF c = 33 /\ nx = 61 THEN LexAt(t, i + 2, Append(acc, Tok("!=", t, i, i + 2)))
          ELSE IF c = 46 /\ nx = 46 THEN LexAt(t, i + 2, Append(acc, Tok("..", t, i, i + 2)))
          ELSE IF Single(c) = "illegal" THEN Illegal
          ELSE LexAt(t, i + 1, Append(acc, Tok(Single(c), t, i, i + 1)))
LexStr(t, i, acc) ==
  IF i > Len(t) THEN Illegal
  ELSE IF t[i] = 34 THEN LexAt(t, i + 1, acc)
  ELSE IF t[i] = 10 THEN Illegal
  ELSE IF t[i] = 91
       THEN LET j == RunEnd(t, i + 1, "up")
            IN IF j > i + 1 /\ j <= Len(t) /\ t[j] = 93
               THEN LexStr(t, j + 1, Append(acc, [k |-> "svar", s |-> SubSeq(t, i + 1, j - 1)]))
               ELSE LET m == RunEnd(t, i + 1, "str") IN LexStr(t, m, Append(acc, Tok("sany", t, i, m)))
  ELSE LET m == RunEnd(t, i, "str") IN LexStr(t, m, Append(acc, Tok("sany", t, i, m)))
Lex(t) == LexAt(t, 1, <<>>)
=============================================================================
