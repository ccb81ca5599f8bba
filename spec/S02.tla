-------------------------------- MODULE S02 ---------------------------------
(* Echo: after every key the terminal row shows the line being edited.        *)
EXTENDS MC

Keys == {97, 98, SP, BS, TAB, ESC, 91, CR, LF, ETX}
N == IF Thorough THEN 5 ELSE 4
Fl == <<F(B("abx"), <<>>, <<>>, 1, 0, 0, <<>>), F(B("aby"), <<>>, <<>>, 1, 0, 0, <<>>), F(B("b"), <<>>, <<>>, 1, 0, 0, <<>>)>>

sWorlds == [v \in 1..3 |->
  World(<<0, 1, 2>>[v], 32, 64, 32, B("h"), 0, Fl, <<<<1, 2, 3>>>>, <<MountOp(1, RootPath, 1), GoOn>>)]
sDepth == N
sOps(i, s, h) == {Typ(<<k>>) : k \in IF i = 1 \/ Thorough THEN Keys ELSE Keys \ {98, 91, LF, ETX}}
sEdges == FALSE
sAbs(s, h) == h
sSuffix(i) == <<>>
sInv(w, s, h) == Idle(s) => Render(s.row) = s.sh.line
\* keys that change nothing write nothing
sStep(w, s, op, t) ==
  (op.k = "type" /\ s.sh.line = t.sh.line /\ op.d[1] \in {BS, ESC}) => t.out = <<>>
=============================================================================
