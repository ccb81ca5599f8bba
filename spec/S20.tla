-------------------------------- MODULE S20 ---------------------------------
(* Refusals: everything that can be refused, and that nothing else happens.    *)
EXTENDS MC

Fl == <<F(B("x"), <<>>, <<>>, 1, 0, 0, B("xx")), F(B("r"), <<>>, <<B("usage r")>>, 0, 1, 0, B("rr")), F(B("w"), <<>>, <<>>, 0, 0, 1, B("ww")), F(B("a"), <<>>, <<>>, 1, 1, 1, B("aa"))>>
sWorlds == [i \in 1..4 |->
  World(IF i = 4 THEN 1 ELSE 0, 48, 64, IF i = 3 THEN 8 ELSE 32, B("h"), i % 2, Fl, <<<<1, 2, 3, 4>>, <<4>>>>,
        <<MountOp(1, RootPath, 1), MountOp(2, B("/d"), 2), MountOp(3, B("/d/e"), 2)>> \o Opt(i > 1, CAddOp(9, 2)) \o Opt(i = 2, Api1("cd", B("/d"))) \o <<GoOn>>)]
\* refused lines and the error of each, seen from the root
Bad == <<<<"q", 5>>, <<"r", 7>>, <<"w 1", 7>>, <<"/r", 7>>, <<"d", 5>>, <<"\"\"", 5>>, <<"verylongname/verylongname", 5>>,
         <<"cd", 6>>, <<"cd q", 1>>, <<"cd d d", 6>>, <<"cd /d/q", 1>>, <<"cd x", 1>>, <<"cd \"\"", 1>>,
         <<"ls q", 1>>, <<"ls d d", 6>>, <<"ls x", 1>>, <<"pwd 1", 6>>,
         <<"cat", 6>>, <<"cat q", 11>>, <<"cat w", 9>>, <<"cat /r q", 11>>, <<"cat /r /r /w", 9>>, <<"cat /a x /q", 9>>, <<"cat d", 11>>, <<"cat /r /a q /r", 11>>,
         <<"xxd", 6>>, <<"xxd q", 11>>, <<"xxd /w", 9>>, <<"xxd /r /r", 6>>, <<"xxd /d", 11>>,
         <<"echo a > q", 11>>, <<"echo a > /r", 8>>, <<"echo a /w", 6>>, <<"echo a >> /w", 6>>, <<"echo a > ", 6>>, <<"echo a b > /w", 6>>, <<"echo > /w", 6>>, <<"echo a > /d", 11>>, <<"echo \\x41 < /w", 6>>,
         <<"help q", 11>>, <<"help w", 10>>, <<"help r r", 6>>, <<"help d", 11>>>>
BadApi == {MountOp(7, B("/d"), 1), MountOp(7, B("/q/q"), 1), MountOp(7, RootPath, 1), Api1("umount", B("/d")), Api1("umount", B("/q")), Api1("umount", RootPath),
           Api1("cd", B("q")), Api1("cd", B("/x")), Api1("cd", <<>>), CRemOp(8), Api1("find", B("q")), Api1("node", B("/q"))}
Good == {Line("a 1"), Line("cat /r /a"), Line("echo new > /w"), Line("cd /d/e"), Line("ls /")}
sDepth == 2
sOps(i, s, h) ==
  IF h = <<>> THEN {Line(Bad[k][1]) : k \in 1..Len(Bad)} \cup BadApi
  ELSE IF Thorough THEN Good \cup {Line(Bad[k][1]) : k \in 1..Len(Bad)} ELSE Good
sEdges == FALSE
sAbs(s, h) == h
sSuffix(i) == <<Line("ls"), Line("help"), Line("pwd"), Line("cat /a /r"), Api1("node", B("/q")), Api1("node", B("/d/e")), Api1("find", B("a"))>>
sInv(w, s, h) == Idle(s)

CodeOf1(op) == Bad[CHOOSE k \in 1..Len(Bad) : Line(Bad[k][1]) = op][2]
Errors(w, out) == {k \in 1..13 : Occurrences(out, Config[w.v].status[k]) > 0 /\ k # 1}
sStep(w, s, op, t) ==
  IF op.k = "type" /\ (\E k \in 1..Len(Bad) : Line(Bad[k][1]) = op)
  THEN \* nothing but the error, whatever came before
       LET hooks == IF w.hook = 1 THEN 1 ELSE 0
           e == Said(t, op)
       IN IF hist = <<>> /\ wi \in {1, 3}
          THEN /\ Core(t) = Core(s) /\ t.store = s.store
               /\ Len(t.calls) = hooks /\ (hooks = 1 => t.calls[1].c = "hook")
               /\ (w.pmax = 32 \/ ~\E i \in 1..Len(op.d) : i > 14) => e = Config[w.v].status[CodeOf1(op) + 1] \o CRLF
          ELSE Errors(w, t.out) # {} => Core(t) = Core(s) /\ \A i \in 1..Len(t.calls) : t.calls[i].c = "hook"
  ELSE IF hist = <<>> THEN t.sh = s.sh                         \* refused calls of the API
  ELSE \* as if the refused one had not been there
       LET u == Apply(w, Start(w), op)
       IN (hist[1].k # "type" \/ wi \in {1, 3}) => u.calls = t.calls /\ u.out = t.out /\ u.store = t.store /\ Core(u) = Core(t)
=============================================================================
