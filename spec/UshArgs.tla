------------------------------ MODULE UshArgs -------------------------------
(* Splitting a command line into arguments, and the \xNN text encoding.      *)
EXTENDS UshBytes

(* The tokeniser: m is what it is in the middle of (gap, quoted, plain), esc  *)
(* whether the byte before was an active backslash, out the argument bytes    *)
(* with a NUL after each argument but the last, n the number of arguments.    *)
Tok0 == [m |-> "gap", esc |-> FALSE, out |-> <<>>, n |-> 0]

TokStep(t, ch) ==
  IF t.m = "gap" THEN
       IF ch = SP THEN t
       ELSE IF ch = QUO THEN [t EXCEPT !.n = @ + 1, !.m = "quoted"]
       ELSE IF ch = BSL THEN [t EXCEPT !.n = @ + 1, !.m = "plain", !.esc = TRUE]
       ELSE [t EXCEPT !.n = @ + 1, !.m = "plain", !.out = Append(@, ch)]
  ELSE IF t.esc THEN
       \* \x stays as it is, any other escaped byte loses the backslash
       [t EXCEPT !.esc = FALSE, !.out = IF ch = 120 THEN @ \o <<BSL, ch>> ELSE Append(@, ch)]
  ELSE IF ch = BSL THEN [t EXCEPT !.esc = TRUE]
  ELSE IF ch = QUO THEN [t EXCEPT !.m = IF t.m = "quoted" THEN "plain" ELSE "quoted"]
  ELSE IF ch = SP /\ t.m = "plain" THEN [t EXCEPT !.m = "gap", !.out = Append(@, 0)]
  ELSE [t EXCEPT !.out = Append(@, ch)]

RECURSIVE TakeStrings(_, _)
TakeStrings(buf, n) ==
  IF n = 0 THEN <<>>
  ELSE LET s == CStr(buf) IN <<s>> \o TakeStrings(Drop(buf, Len(s) + 1), n - 1)

Args(line) ==
  LET t == FoldLeft(TokStep, Tok0, line)
  IN TakeStrings(Append(t.out, 0), t.n)

\* ------------------------------------------------------------ \xNN decoding
HexVal(c) == IF c \in 48..57 THEN c - 48
             ELSE IF c \in 65..70 THEN c - 55
             ELSE IF c \in 97..102 THEN c - 87
             ELSE 0

DecStep(t, ch) ==
  CASE t.s = 0 -> IF ch = BSL THEN [t EXCEPT !.s = 1] ELSE [t EXCEPT !.out = Append(@, ch)]
    [] t.s = 1 -> IF ch = 120 THEN [t EXCEPT !.s = 2] ELSE [t EXCEPT !.s = 0, !.out = Append(@, ch)]
    [] t.s = 2 -> [t EXCEPT !.s = 3, !.v = HexVal(ch)]
    [] t.s = 3 -> [t EXCEPT !.s = 0, !.out = Append(@, 16 * t.v + HexVal(ch))]

Decode(d) == FoldLeft(DecStep, [s |-> 0, v |-> 0, out |-> <<>>], d).out
=============================================================================
