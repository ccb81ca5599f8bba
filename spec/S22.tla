-------------------------------- MODULE S22 ---------------------------------
(* Memory: the application saves the shell's memory at every point of every    *)
(* kind of output and again later, and puts it back in both orders; what       *)
(* follows is what followed the first time.                                    *)
EXTENDS MC

Fl == <<F(B("x"), <<B("dx")>>, <<B("help")>>, 1, 1, 1, B("abc")), F(B("xy"), <<>>, <<>>, 0, 1, 0, <<>>), F(B("p"), <<>>, <<>>, 2, 0, 0, <<>>)>>
Su == <<MountOp(1, RootPath, 1), MountOp(2, B("/d"), 2), CAddOp(3, 2)>>
sWorlds == [i \in 1..2 |-> World(IF i = 1 THEN 0 ELSE 2, 32, 32, 32, B("host"), i - 1, Fl, <<<<1, 2>>, <<2, 3>>>>, Su \o <<GoOn>>)]
Jobs == <<B("ls") \o <<CR>>, B("x") \o <<TAB>> \o B("y") \o <<BS>>, B("help xy") \o <<CR>>, B("q") \o <<CR>>, B("ab") \o <<ESC>>, B("cat x xy") \o <<CR>>, B("xxd x") \o <<CR>>,
          B("\"a") \o <<ESC, 91>>, B("cd d") \o <<CR>>, <<>>>>
NJ == 10
Totals == [i \in 1..2 |-> [j \in 1..NJ |-> Len(Apply(sWorlds[i], Start(sWorlds[i]), Typ(Jobs[j])).out)]]
JobOf(h) == CHOOSE j \in 1..NJ : Jobs[j] = h[1].d
Mids ==
  <<<<Line("cd d"), Line("ls")>>, <<MountOp(4, B("/e"), 2), Line("ls /e")>>, <<Api1("umount", B("/d")), Line("help")>>, <<CRemOp(3), Line("xy"), CAddOp(3, 2)>>,
    <<Line("echo new > /x"), Line("cat /x")>>, <<Api0("reset"), GoOn>>, <<Api0("deinit"), Api0("reinit")>> \o Su \o <<GoOn>>,
    <<Typ(B("x") \o <<TAB>>), Typ(B("y") \o <<CR>>)>>, <<Api1("print", B("msg")), GoOn>>, <<Raw(B("ls") \o <<CR>>), Acc(9)>>>>
NM == 10
MidOf(op) == CHOOSE k \in 1..NM : Mids[k][1] = op
\* the plan of a history: job, cut, save, go on, a, save, b, back, the input that waited, go on, a, forward, b
Plan(j, n, a, b, left) ==
  <<Raw(Jobs[j]), Acc(n), SaveOp(1), GoOn>> \o Mids[a] \o <<SaveOp(2)>> \o Mids[b] \o <<RestoreOp(1), Raw(left), GoOn>> \o Mids[a] \o <<RestoreOp(2)>> \o Mids[b]
Left(i, h) == LET w == sWorlds[i] IN Apply(w, Apply(w, Start(w), h[1]), h[2]).inq
sDepth == 40
sOps(i, s, h) ==
  LET k == Len(h)
  IN CASE k = 0 -> {Raw(Jobs[j]) : j \in 1..NJ}
       [] k = 1 -> {Acc(n) : n \in 0..(Totals[i][JobOf(h)] + 1)}
       [] k = 2 -> {SaveOp(1)}
       [] k = 3 -> {GoOn}
       [] k = 4 -> {Mids[a][1] : a \in {a \in 1..NM : Thorough \/ (h[2].n + a + i) % 5 = 0}}
       [] OTHER ->
            LET a == MidOf(h[5])
                m == 4 + Len(Mids[a])
            IN IF k < m THEN {Mids[a][k - 3]}
               ELSE IF k = m THEN {SaveOp(2)}
               ELSE IF k = m + 1 THEN {Mids[b][1] : b \in {b \in 1..NM : (b # a \/ a \notin {2, 4}) /\ (a = 10 => b = 6) /\ (IF Thorough THEN (h[2].n + b) % 2 = 0 ELSE (h[2].n + b) % 4 = 0)}}
               ELSE LET p == Plan(JobOf(h), h[2].n, a, MidOf(h[m + 2]), Left(i, h))
                    IN IF k < Len(p) THEN {p[k + 1]} ELSE {}
sEdges == FALSE
sAbs(s, h) == h
sSuffix(i) == <<Line("pwd"), Line("ls"), Line("xy"), RestoreOp(1), Line("help"), Line("cat /x"), RestoreOp(2), Line("ls /")>>
sInv(w, s, h) == TRUE

Seen1(t) == [out |-> t.out, calls |-> t.calls, res |-> t.res, sh |-> t.sh]
\* a history that is complete: what happened after each operation
Logs(w, h) == FoldLeft(LAMBDA acc, op : LET t == Apply(w, acc.t, op) IN [t |-> t, l |-> Append(acc.l, Seen1(t))], [t |-> Start(w), l |-> <<>>], h).l
sStep(w, s, op, t) ==
  LET h == Append(hist, op)
      R == {k \in 1..Len(h) : h[k].k = "restore"}
  IN (Cardinality(R) = 2 /\ sOps(wi, t, h) = {}) =>
       LET l == Logs(w, h)
           r1 == CHOOSE k \in R : \A j \in R : k <= j
           r2 == CHOOSE k \in R : \A j \in R : k >= j
           s2 == CHOOSE k \in 1..Len(h) : h[k] = SaveOp(2)
       IN /\ \A k \in 4..(s2 - 1) : l[k] = l[k - 4 + r1 + 2]
          /\ \A k \in 1..(r1 - s2 - 1) : l[s2 + k] = l[r2 + k]
          /\ l[3].sh = l[r1].sh /\ l[s2].sh = l[r2].sh
=============================================================================
