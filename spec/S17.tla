-------------------------------- MODULE S17 ---------------------------------
(* Two instances: all interleavings of two short programs of operations.  Each *)
(* instance must end as if the other had not been there, and the real shells   *)
(* must each produce a behaviour of a single shell.                            *)
EXTENDS MC

VARIABLE own               \* what each instance did itself, for comparison

Fl(which) ==
      <<F(B("x"), <<B("dx")>>, <<B("help")>>, 1, 1, 1, B("abc")), F(B("xy"), <<>>, <<>>, 0, 1, 1, <<>>),
        F(B("z"), <<>>, <<>>, 0, 1, 0, [i \in 1..40 |-> 64 + i + which])>>
Su == <<MountOp(1, RootPath, 1), MountOp(2, B("/d"), 2), CAddOp(3, 2)>>
Ws == [i \in 1..2 |-> World(0, IF i = 1 THEN 32 ELSE 16, 32, 32, B("h"), i - 1, Fl(32 * (i - 1)), <<<<1, 2, 3>>, <<2>>>>, Su \o <<GoOn>>)]
Restart == Api0("deinit")
Programs ==
  <<<<Raw(B("ls") \o <<CR>>), Acc(9), GoOn, Line("x")>>,
    <<Typ(B("x") \o <<TAB>>), Typ(<<TAB>>), Typ(<<CR>>), Line("cd d")>>,
    <<Raw(B("cat x xy x") \o <<CR>>), Acc(12), PrintfOp(1, B("fmt")), GoOn>>,
    <<Api1("umount", B("/d")), Line("help"), CRemOp(3), Line("xy")>>,
    <<Line("echo 12 > x"), Raw(B("xxd x") \o <<CR>>), Acc(15), Api0("reset")>>,
    <<Raw(B("help") \o <<CR>>), Acc(20), Api0("deinit"), Api0("reinit"), MountOp(1, RootPath, 1)>>,
    <<Raw(B("xxd z") \o <<CR>>), Acc(90), Acc(100), GoOn>>,
    <<Typ(<<ESC>>), Typ(<<91>>), Typ(B("Ax")), Line(" 1")>>>>
NP == IF Thorough THEN 8 ELSE 7

\* wi is the pair of programs, st the pair of states, hist the common history
Init17 ==
  /\ wi \in {p \in (1..NP) \X (1..NP) : Thorough \/ p[1] <= p[2] \/ p[1] + p[2] <= 7}
  /\ st = [i \in 1..2 |-> Start(Ws[i])]
  /\ hist = <<>>
  /\ own = <<0, 0>>
  /\ (wi[1] = 1 /\ wi[2] = 2) => \A i \in 1..2 : PrintT("@W " \o ToString(i) \o " " \o ToJson(Ws[i]))

Inst(i) == O("inst", <<>>, i - 1, 0, <<>>)
End == <<Inst(1), GoOn, Inst(2), GoOn>>
Move(i) ==
  /\ own[i] < Len(Programs[wi[i]])
  /\ LET op == Programs[wi[i]][own[i] + 1]
     IN /\ st' = [st EXCEPT ![i] = Apply(Ws[i], @, op)]
        /\ hist' = hist \o <<Inst(i), op>>
  /\ own' = [own EXCEPT ![i] = @ + 1]
  /\ wi' = wi
  /\ (\A k \in 1..2 : own'[k] = Len(Programs[wi[k]])) => PrintT("@T " \o ToJson([iw |-> <<1, 2>>, h |-> hist' \o End]))
Next17 == Move(1) \/ Move(2)
Spec17 == Init17 /\ [][Next17]_<<wi, st, hist, own>>

Alone(i) == FoldLeft(LAMBDA s, o : Apply(Ws[i], s, o), Start(Ws[i]), SubSeq(Programs[wi[i]], 1, own[i]))
Separate == \A i \in 1..2 : st[i] = Alone(i)
Fine == \A i \in 1..2 : BufferOK(st[i].sh) /\ (st[i].sh.live => TreeOK(st[i].sh))
View17 == <<wi, hist>>

sWorlds == Ws
sDepth == 8
sOps(i, s, h) == {}
sEdges == FALSE
sAbs(s, h) == h
sSuffix(i) == <<>>
sInv(w, s, h) == TRUE
sStep(w, s, op, t) == TRUE
(*
CFG BEGIN
SPECIFICATION Spec17
CONSTANTS
 Worlds <- sWorlds
 Depth <- sDepth
 Ops <- sOps
 Step <- sStep
 Inv <- sInv
 Abstract <- sAbs
 EmitEdges <- sEdges
 Suffix <- sSuffix
INVARIANTS Separate Fine
VIEW View17
CHECK_DEADLOCK FALSE
CFG END
*)
=============================================================================
