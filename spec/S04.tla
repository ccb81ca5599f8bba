-------------------------------- MODULE S04 ---------------------------------
(* Tokenising: every line over the bytes that matter to the grammar.          *)
EXTENDS MC

A == {SP, QUO, BSL, 120, 97}
L == IF Thorough THEN 7 ELSE 6

sWorlds == <<World(0, 64, 64, 32, B("h"), 1, <<F(B("a"), <<>>, <<>>, 1, 0, 0, <<>>), F(B("x"), <<>>, <<>>, 1, 0, 0, <<>>)>>, <<<<1, 2>>>>,
                   <<MountOp(1, RootPath, 1), GoOn>>)>>
sDepth == 1
sOps(i, s, h) == {Typ(l \o <<CR>>) : l \in Strings(A, 0, L)}
sEdges == FALSE
sAbs(s, h) == h
sSuffix(i) == <<>>

\* what reaches the command is the argument list, whichever way it is typed
Esc(a)  == ConcatAll([i \in 1..Len(a) |-> IF a[i] \in {SP, QUO, BSL} THEN <<BSL, a[i]>> ELSE <<a[i]>>])
EscQ(a) == <<QUO>> \o ConcatAll([i \in 1..Len(a) |-> IF a[i] \in {QUO, BSL} THEN <<BSL, a[i]>> ELSE <<a[i]>>]) \o <<QUO>>
Mix(a)  == IF a = <<>> THEN <<QUO, QUO>> ELSE <<QUO, QUO>> \o Esc(a) \o <<QUO, QUO>>
JoinWith(as, sep) == ConcatAll([i \in 1..Len(as) |-> IF i = 1 THEN as[i] ELSE sep \o as[i]])

\* an escaped x stays escaped for the decoder, so it cannot be part of a round trip
Words == Strings({SP, QUO, BSL, 97}, 0, 2)
Vectors == UNION {[1..k -> Words] : k \in 0..2}
ASSUME \A v \in Vectors :
  /\ Args(JoinWith([i \in 1..Len(v) |-> EscQ(v[i])], <<SP>>)) = v
  /\ Args(<<SP>> \o JoinWith([i \in 1..Len(v) |-> Mix(v[i])], <<SP, SP, SP>>) \o <<SP>>) = v
  /\ (\A i \in 1..Len(v) : v[i] # <<>>) => Args(JoinWith([i \in 1..Len(v) |-> Esc(v[i])], <<SP, SP>>)) = v

\* never more bytes out than in, so the arguments fit where the line was
ASSUME \A l \in Strings(A, 0, 5) :
  LET a == Args(l) IN FoldLeft(LAMBDA acc, x : acc + Len(x) + 1, 0, a) <= Len(l) + 1

sInv(w, s, h) == TRUE
sStep(w, s, op, t) ==
  LET a == Args(SubSeq(op.d, 1, Len(op.d) - 1))
  IN IF a = <<>> THEN t.calls = <<>> ELSE t.calls # <<>> /\ t.calls[1].c = "hook" /\ t.calls[1].a = a
=============================================================================
