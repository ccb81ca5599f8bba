-------------------------------- MODULE S08 ---------------------------------
(* The command registry: every history of adding and removing groups.          *)
EXTENDS MC

Fl == <<F(B("x"), <<>>, <<B("hx")>>, 1, 0, 0, <<>>), F(B("y"), <<B("why")>>, <<>>, 1, 0, 0, <<>>),
        F(B("x"), <<B("dx")>>, <<>>, 0, 1, 0, B("c")), F(B("z"), <<>>, <<>>, 1, 0, 0, <<>>),
        F(B("y"), <<>>, <<B("hy")>>, 1, 0, 1, <<>>), F(B("ls"), <<>>, <<B("mine")>>, 1, 0, 0, <<>>),
        F(B("x"), <<>>, <<>>, 1, 0, 0, <<>>)>>
Groups == <<<<1, 2>>, <<3, 4>>, <<5, 6, 7>>, <<>>>>
NG == 3
sWorlds == [k \in 1..4 |->
  World(<<0, 2, 1, 4>>[k], 64, 128, 32, B("h"), k % 2, Fl, Groups \o <<<<7>>>>, <<MountOp(1, RootPath, 5), GoOn>>)]
sDepth == IF Thorough THEN 8 ELSE 6
Reg(s, g) == \E i \in 1..Len(s.sh.cmds) : s.sh.cmds[i].id = g
sOps(i, s, h) ==
  {CAddOp(g, g) : g \in {g \in 1..NG : ~Reg(s, g)}} \cup {CRemOp(g) : g \in 1..NG}
sEdges == TRUE
\* the implementation may remember more than the abstract state: tell states apart
\* by the last operations, so that all pairs (thorough: triples) of operations occur
sAbs(s, h) == <<s.sh.cmds, Recent(h, IF Thorough THEN 2 ELSE 1)>>
sSuffix(i) == <<Api1("find", B("x")), Api1("find", B("y")), Api1("find", B("z")), Api1("find", B("ls")), Line("x"), Line("y 1"), Line("z"), Line("ls"), Line("help"), Line("help x"), Typ(<<TAB>>)>>

\* the registered groups, newest first, follow from the history alone
RECURSIVE Registered(_)
Registered(h) ==
  IF h = <<>> THEN <<>>
  ELSE LET r == Registered(SubSeq(h, 1, Len(h) - 1))
           o == h[Len(h)]
       IN IF o.k = "cadd" THEN <<o.n>> \o r ELSE SelectSeq(r, LAMBDA g : g # o.n)

sInv(w, s, h) ==
  LET mine == SelectSeq([i \in 1..Len(s.sh.cmds) |-> s.sh.cmds[i].id], LAMBDA g : g # 0)
      names == ConcatAll([i \in 1..Len(mine) |-> Groups[mine[i]]])
      first(n) == LET S == {i \in 1..Len(names) : Fl[names[i]].n = n}
                  IN IF S = {} THEN 0 ELSE names[CHOOSE i \in S : \A j \in S : i <= j]
  IN /\ mine = Registered(h)
     /\ \A n \in {B("y"), B("z")} : FindFile(s.sh, n).id = first(n)
     /\ FindFile(s.sh, B("x")).id = IF first(B("x")) # 0 THEN first(B("x")) ELSE 7
     \* the built-in commands stay, and stay behind
     /\ C(s.sh).hascmds => s.sh.cmds[Len(s.sh.cmds)].id = 0

sStep(w, s, op, t) ==
  IF op.k = "crem" /\ ~Reg(s, op.n) THEN t.res = <<1>> /\ t.sh = s.sh
  ELSE t.res = <<0>> /\ [t.sh EXCEPT !.cmds = s.sh.cmds] = s.sh
=============================================================================
