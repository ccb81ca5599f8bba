-------------------------------- MODULE S03 ---------------------------------
(* Overlong input: every input buffer size and every way to reach its end.     *)
EXTENDS MC

Keys == {97, SP, BS, CR, TAB}
Fl == <<F(B("aaa"), <<>>, <<>>, 1, 0, 0, <<>>), F(B("aaaaab"), <<>>, <<>>, 1, 0, 0, <<>>), F(B("aaaaac"), <<>>, <<>>, 1, 0, 0, <<>>)>>
Sizes == IF Thorough THEN <<2, 3, 4, 5, 6, 7, 8>> ELSE <<2, 3, 4, 5, 6>>
Gr == <<<<1>>, <<2, 3>>, <<1, 2, 3>>>>

sWorlds == [i \in 1..(3 * Len(Sizes)) |->
  World(0, Sizes[((i - 1) \div 3) + 1], 64, 32, B("h"), 1, Fl, Gr, <<MountOp(1, RootPath, ((i - 1) % 3) + 1), GoOn>>)]
sDepth == IF Thorough THEN 12 ELSE 9
sOps(i, s, h) == {Typ(<<k>>) : k \in Keys}
sEdges == TRUE
sAbs(s, h) == Core(s)
sSuffix(i) == <<Typ(<<97, CR>>), Typ(<<CR>>), Typ(<<97, SP, 97, CR>>)>>
sInv(w, s, h) == Len(s.sh.line) <= w.isz - 1
\* the filling byte drops everything; nothing of a dropped line is ever run
sStep(w, s, op, t) ==
  op.k = "type" /\ op.d[1] \in {97, SP, CR} =>
    IF Len(s.sh.line) = w.isz - 1
    THEN t.sh.line = <<>> /\ \A i \in 1..Len(t.calls) : t.calls[i].c = "hook" /\ t.calls[i].a[1] = <<>>
    ELSE op.d[1] # CR => t.sh.line = Append(s.sh.line, op.d[1])
=============================================================================
