-------------------------------- MODULE S11 ---------------------------------
(* echo: every text over the bytes that matter to decoding, to the terminal    *)
(* and to a file.                                                              *)
EXTENDS MC

A == {BSL, 120, 52, 102, 71, 97, QUO}      \* \ x 4 f G a "
L == IF Thorough THEN 6 ELSE 4

Fl == <<F(B("w"), <<>>, <<>>, 0, 0, 1, B("old")), F(B("r"), <<>>, <<>>, 0, 1, 0, B("old"))>>
sWorlds == <<World(0, 64, 64, 32, B("h"), 0, Fl, <<<<1, 2>>>>, <<MountOp(1, RootPath, 1), GoOn>>)>>
sDepth == 1
Hex == {48, 57, 65, 70, 97, 102, 103, 71, 64, 47, 58, 96}
\* all pairs of the characters around the digit ranges after \x, in a row
Pairs == {B("\\x") \o <<a, b>> : a \in Hex, b \in Hex}
Texts == Strings(A, 1, L) \cup Pairs \cup {p \o B("z") \o q : p \in {B("\\x00"), B("\\xff"), B("\\xFF")}, q \in {B("\\x41"), <<>>, B("\\x0")}}
Heads == {B("echo ")}
sOps(i, s, h) ==
  {Typ(B("echo ") \o x \o <<CR>>) : x \in Texts} \cup {Typ(B("echo ") \o x \o B(" > w") \o <<CR>>) : x \in Texts}
  \cup {Line("echo \"\" > w"), Line("echo \"\""), Line("echo"), Line("echo a > r"), Line("echo a > n"), Line("echo a < w"),
        Line("echo a >> w"), Line("echo a > w b"), Line("echo a >"), Line("echo > w"), Line("echo a b"), Line("echo a >w")}
sEdges == FALSE
sAbs(s, h) == h
sSuffix(i) == <<>>
sInv(w, s, h) == TRUE

\* decoding by positions: which bytes are parts of escapes
\* an escape starts at a backslash that is not inside another escape
RECURSIVE Dec(_)
Dec(d) ==
  IF d = <<>> THEN <<>>
  ELSE IF d[1] # BSL THEN <<d[1]>> \o Dec(Tail(d))
  ELSE IF Len(d) >= 2 /\ d[2] # 120 THEN <<d[2]>> \o Dec(Drop(d, 2))
  ELSE IF Len(d) >= 4 THEN <<HexVal(d[3]) * 16 + HexVal(d[4])>> \o Dec(Drop(d, 4))
  ELSE <<>>                                                  \* broken off at the end

Encode(b) == <<BSL, 120>> \o Hex2(b)
ASSUME \A b \in 0..255 : Decode(Encode(b)) = <<b>> /\ Dec(Encode(b)) = <<b>>
ASSUME \A x \in Strings(A, 0, 5) : Decode(x) = Dec(x)

Sets(t) == SelectSeq(t.calls, LAMBDA c : c.c = "set")
sStep(w, s, op, t) ==
  LET a == Args(SubSeq(op.d, 1, Len(op.d) - 1))
      b == Said(t, op)
  IN /\ b # <<256>>
     /\ CASE Len(a) = 1 -> b = CRLF /\ t.calls = <<>>
          [] Len(a) = 2 -> t.calls = <<>> /\ b = CStr(Dec(a[2])) \o CRLF
          [] Len(a) = 4 /\ a[3] = B(">") /\ a[4] = B("w") ->
               t.calls = <<[c |-> "set", f |-> 1, a |-> <<>>, d |-> Dec(a[2])]>> /\ t.store[1] = Dec(a[2]) /\ b = <<>>
          [] OTHER -> t.calls = <<>> /\ t.store = s.store /\ Occurrences(b, B("error: ")) = 1
=============================================================================
