-------------------------------- MODULE S16 ---------------------------------
(* Lifecycle: reset, deinitialisation and initialisation at every point of     *)
(* every kind of output and with unfinished lines.                             *)
EXTENDS MC

Fl == <<F(B("x"), <<B("dx")>>, <<B("help")>>, 1, 1, 1, B("abc")), F(B("xy"), <<>>, <<>>, 0, 1, 0, <<>>)>>
Su == <<MountOp(1, RootPath, 1), MountOp(2, B("/d"), 2), CAddOp(3, 2)>>
sWorlds == [i \in 1..2 |-> World(i - 1, 32, 32, 32, B("host"), 1, Fl, <<<<1, 2>>, <<2>>>>, Su \o <<Api1("cd", B("/d")), GoOn>>)]
Jobs == <<B("ls") \o <<CR>>, B("x") \o <<TAB>>, B("help xy") \o <<CR>>, B("q") \o <<CR>>, B("ab") \o <<ESC>>, <<ETX>>, B("cat /x xy") \o <<CR>>, B("xxd /x") \o <<CR>>,
          B("\"a") \o <<ESC, 91>>>>
NJ == 9
Total(i, j) == Len(Apply(sWorlds[i], Start(sWorlds[i]), Typ(Jobs[j])).out)
Totals == [i \in 1..2 |-> [j \in 1..NJ |-> Total(i, j)]]
JobOf(h) == CHOOSE j \in 1..NJ : Jobs[j] = h[1].d
Again == <<Api0("deinit"), Api0("reinit")>> \o Su
sDepth == 9
sOps(i, s, h) ==
  CASE Len(h) = 0 -> {Raw(Jobs[j]) : j \in 1..NJ}
    [] Len(h) = 1 -> {Acc(n) : n \in {n \in 0..(Totals[i][JobOf(h)] + 1) : i = 1 \/ n % 5 = 0 \/ Thorough}}
    [] Len(h) = 2 -> {Api0("reset"), Api0("deinit")}
    [] h[3].k = "reset" ->
         (CASE Len(h) = 3 -> {GoOn} \cup (IF Thorough THEN {Api0("reset")} ELSE {})
            [] Len(h) = 4 -> {GoOn}
            [] Len(h) = 5 -> {Typ(<<ETX>>)}
            [] OTHER -> {})
    [] h[3].k = "deinit" -> IF Len(h) < 2 + Len(Again) THEN {Again[Len(h) - 1]} ELSE IF Len(h) = 2 + Len(Again) THEN {GoOn} ELSE {}
sEdges == FALSE
sAbs(s, h) == h
sSuffix(i) == <<Typ(<<ETX>>), Line("pwd"), Line("ls"), Line("xy"), Line("help"), Line("xq"), Typ(B("q") \o <<BS>>  \o B("x 1") \o <<CR>>)>>
sInv(w, s, h) == TRUE

Logo == B("uShell 0.1.0") \o CRLF
PromptOf(w, name) == (IF w.v = 0 THEN <<ESC>> \o B("[35m") ELSE <<>>) \o B("[host ") \o B(name) \o B("]$ ") \o (IF w.v = 0 THEN <<ESC>> \o B("[0m") ELSE <<>>)

sStep(w, s, op, t) ==
  CASE op.k = "reset" -> t.sh.cwd.p = RootPath /\ t.sh.fs = s.sh.fs /\ t.sh.cmds = s.sh.cmds /\ t.calls = <<>>
    [] op.k = "go" /\ hist[3].k = "reset" /\ Len(hist) = 3 -> StartsWith(t.out, Logo \o PromptOf(w, "/")) /\ Idle(t)
    [] op.k = "go" /\ hist[3].k = "deinit" ->
         \* like the first time: the whole state, but for what the application keeps
         LET new == Drive(w, FoldLeft(LAMBDA a, o : Apply(w, a, o), Start([w EXCEPT !.su = <<>>]), Su), -1)
             left == s.inq
         IN (left = <<>> => t.out = Logo \o PromptOf(w, "/") /\ t.sh = new.sh) /\ StartsWith(t.out, Logo \o PromptOf(w, "/"))
    [] op = Typ(<<ETX>>) -> EndsWith(t.out, B("^C") \o CRLF \o PromptOf(w, "/"))
    [] op.k = "deinit" -> ~t.sh.live /\ t.sh.fs = <<>> /\ t.sh.cmds = <<>>
    [] OTHER -> TRUE
=============================================================================
