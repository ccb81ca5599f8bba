-------------------------------- MODULE S15b --------------------------------
(* Formatted messages: all pairs and triples of lengths around the size of the *)
(* output buffer, with output accepted in between.                             *)
EXTENDS MC

Outs == IF Thorough THEN <<4, 5, 8, 18, 19, 20, 21, 22, 24, 30, 600>> ELSE <<4, 8, 20, 21, 24, 300>>
NoticeMsg == B("...overflow error") \o CRLF
sWorlds == [i \in 1..Len(Outs) |->
  World(0, 32, Outs[i], 32, B("h"), 0, <<F(B("x"), <<>>, <<>>, 1, 0, 0, <<>>)>>, <<<<1>>>>, <<MountOp(1, RootPath, 1), GoOn>>)]
Fill(c, n) == [k \in 1..n |-> c]
Lens(i) == IF Outs[i] > 100 THEN {2, 257, Outs[i] - 1} ELSE IF Thorough THEN 0..(Outs[i] + 2) ELSE {n \in 0..(Outs[i] + 2) : n <= 2 \/ n >= Outs[i] - 2 \/ n = Outs[i] \div 2}
ErrLens(i) == {n \in IF Outs[i] > 100 THEN {1, 257, Outs[i] - 17} ELSE IF Thorough THEN {0, 1, Outs[i] - 19, Outs[i] - 18, Outs[i] - 17, Outs[i] - 1, Outs[i]} ELSE {1, Outs[i] - 18, Outs[i] - 17} : n >= 0}
ErrRest(i, n) == {k \in {Outs[i] - n - 18, Outs[i] - n - 17} : k >= 0}
sDepth == 5
sOps(i, s, h) ==
  CASE Len(h) = 0 -> {PrintfOp(1, Fill(97, n)) : n \in Lens(i)} \cup {Api1("printfe", Fill(97, n)) : n \in ErrLens(i)}
    [] Len(h) = 1 -> {Acc(k) : k \in (IF Thorough THEN {0, 1, 3, Outs[i]} ELSE {0, 3, Outs[i]})} \cup {GoOn}
    [] Len(h) = 2 -> {PrintfOp(1, Fill(98, n)) : n \in Lens(i)} \cup {Api1("printfe", Fill(98, n)) : n \in ErrLens(i) \cup ErrRest(i, Len(h[1].d))}
    [] Len(h) = 3 -> {PrintfOp(1, B("c")), Acc(0)}
    [] Len(h) = 4 -> {GoOn}
sEdges == FALSE
sAbs(s, h) == h
sSuffix(i) == <<Line("x")>>
sInv(w, s, h) == Len(h) = 5 => Idle(s)

\* everything written since the first call, when nothing was cut
Bytes(h, i) == h[i].d
sStep(w, s, op, t) ==
  op.k = "go" /\ Len(hist) = 4 =>
    LET p == PromptText(t.sh)
        failed == \E j \in 1..Len(hist) : hist[j].k = "printfe"
        texts == Bytes(hist, 1) \o Bytes(hist, 3) \o Bytes(hist, 4)
        body == IF EndsWith(t.out, p) THEN SubSeq(t.out, 1, Len(t.out) - Len(p)) ELSE <<256>>
    IN \/ failed /\ Len(body) <= w.osz + Len(texts)
                 /\ (w.osz > Len(NoticeMsg) /\ hist[2].k = "acc" /\ hist[2].n = 0)
                      => (Occurrences(body, FormatMsg) >= 1 \/ Occurrences(body, NoticeMsg) >= 1)
       \/ ~failed /\ t.out = <<>> /\ Len(Bytes(hist, 3)) + Len(Bytes(hist, 4)) = 0     \* nothing said, nothing to show
       \/ ~failed /\ IF hist[2].k = "go"
          THEN \* a prompt was shown in between: a new message
               LET now == Bytes(hist, 3) \o Bytes(hist, 4)
               IN IF Len(now) < w.osz THEN body = now
                  ELSE Len(body) <= w.osz /\ (w.osz > Len(NoticeMsg) => Occurrences(body, NoticeMsg) = 1)
          ELSE LET done == hist[2].n
               IN IF Len(texts) < w.osz
                  THEN done > Len(texts) \/ EndsWith(texts, SelectSeq(body, LAMBDA c : c \in {97, 98, 99}))
                  ELSE Len(body) <= w.osz + Len(texts)
=============================================================================
