-------------------------------- MODULE S21 ---------------------------------
(* Commands that go on in a process callback: every plan of a few calls of the *)
(* callback, with messages from the main loop and input at any time.  What     *)
(* must come out is added up from the plan alone.                              *)
EXTENDS MC

Fl == <<F(B("go"), <<B("d")>>, <<B("help")>>, 2, 1, 1, B("abc")), F(B("no"), <<>>, <<>>, 1, 0, 0, <<>>), F(B("too"), <<>>, <<>>, 2, 0, 0, <<>>)>>
sWorlds == <<World(0, 32, 32, 32, B("h"), 1, Fl, <<<<1, 2>>, <<3>>>>, <<MountOp(1, RootPath, 1), CAddOp(1, 2), GoOn>>),
             World(1, 16, 24, 32, B("h"), 0, Fl, <<<<1, 2>>, <<3>>>>, <<MountOp(1, RootPath, 1), CAddOp(1, 2), GoOn>>)>>

Wr(t) == Api1("pw", B(t))
\* one call of the callback: it goes on, or it ends
Goes == {<<>>, <<Wr("one")>>, <<Wr("")>>, <<Api0("ps")>>, <<Wr("lost"), Wr("two")>>, <<Api1("print", B("lost")), Wr("3")>>}
        \cup (IF Thorough THEN {<<Wr("lost"), Api0("ps")>>} ELSE {})
Ends == {<<Api1("print", B("bye"))>>, <<Api1("pnnl", B("bye"))>>, <<PrintfOp(1, B("b")), PrintfOp(1, B("ye"))>>, <<StatusOp(4)>>, <<Api0("reset")>>,
         <<Api0("ps"), Api1("print", B("end"))>>}
Starts == {<<Api0("ps")>>, <<Api0("ps"), Wr("start")>>, <<Api0("ps"), Api1("print", B("never"))>>}
N == IF Thorough THEN 3 ELSE 2

Begin(f, e) == Block(B("exec"), f, e)
Proc1(f, e) == Block(B("proc"), f, e)
Name(f) == Fl[f].n

\* the plan is made first, then the command is typed, with the next line behind it
sDepth == N + 5
Planned(h) == {i \in 1..Len(h) : h[i].k = "block"}
Typed(h) == \E i \in 1..Len(h) : h[i].k \in {"type", "raw"}
Ended(h) == h # <<>> /\ \E i \in 1..Len(h) : h[i].k = "block" /\ h[i].d = B("proc") /\ h[i].e \in Ends
sOps(i, s, h) ==
  IF h = <<>> THEN {Begin(f, e) : f \in 1..3, e \in Starts}
  ELSE IF ~Typed(h) THEN
     (IF Len(h) <= N /\ ~Ended(h) /\ h[1].n # 2 THEN {Proc1(h[1].n, e) : e \in Goes \cup Ends} ELSE {})
     \cup {Typ(Name(h[1].n) \o <<CR>> \o B("ls") \o <<CR>>)}
     \cup (IF i = 1 /\ Len(h) <= 2 THEN {Raw(Name(h[1].n) \o <<CR>> \o B("no 1") \o <<CR>>)} ELSE {})
  ELSE IF h[Len(h)].k = "raw" THEN {Acc(n) : n \in 0..12}
  ELSE IF h[Len(h)].k = "acc" THEN {Api1("print", B("main")), Api0("reset"), GoOn}
  ELSE IF h[Len(h)].k \in {"print", "reset"} THEN {GoOn}
  ELSE {}
sEdges == FALSE
sAbs(s, h) == h
sSuffix(i) == <<GoOn, Typ(<<ETX>>), Line("too 2"), Line("cat go"), Line("no")>>

\* what a list of calls leaves for the terminal, and whether the command goes on
Text(w, e) ==
  IF e = <<>> \/ Last(e).k = "ps" THEN <<>>
  ELSE CASE Last(e).k = "printf" -> B("bye")
         [] Last(e).k = "print"  -> Last(e).d \o CRLF
         [] Last(e).k = "status" -> Config[w.v].status[Last(e).n + 1] \o CRLF
         [] Last(e).k = "reset"  -> Welcome
         [] OTHER                -> Last(e).d
On(e) == e = <<>> \/ Last(e).k \in {"ps", "pw"}
RECURSIVE Story(_, _)
Story(w, bs) ==                 \* bs: the calls, in order; then an unplanned one prints an empty line
  IF bs = <<>> THEN CRLF ELSE Text(w, Head(bs)) \o IF On(Head(bs)) THEN Story(w, Tail(bs)) ELSE <<>>
RECURSIVE CallsOf(_)
CallsOf(bs) == IF bs = <<>> THEN 1 ELSE 1 + IF On(Head(bs)) THEN CallsOf(Tail(bs)) ELSE 0

sStep(w, s, op, t) ==
  LET p == PromptText(t.sh)
      plan == [i \in 1..Len(s.blk) |-> s.blk[i].e]
      f == s.blk[1].n
      procs == SelectSeq(t.calls, LAMBDA c : c.c = "proc")
  IN /\ op.k = "type" =>
          IF f = 2 THEN StartsWith(t.out, Name(f) \o CRLF \o (IF On(plan[1]) THEN (IF Last(plan[1]).k = "pw" THEN B("start") ELSE <<>>) \o CRLF ELSE Text(w, plan[1])) \o p \o B("ls"))
                        /\ procs = <<>>
          ELSE /\ StartsWith(t.out, Name(f) \o CRLF \o Story(w, plan) \o p \o B("ls") \o CRLF)
               /\ Len(procs) = (IF On(plan[1]) THEN CallsOf(Tail(plan)) ELSE 0)
               /\ \A i \in 1..Len(procs) : procs[i].f = f
     /\ op.k \in {"type", "go"} => EndsWith(t.out, p)
     \* the line typed behind it is run after it, once
     /\ op.k = "go" => Len(SelectSeq(t.calls, LAMBDA c : c.c = "exec" /\ c.f = 2 /\ c.a = <<B("no"), B("1")>>)) <= 1
sInv(w, s, h) == h # <<>> /\ h[Len(h)].k \in {"type", "go"} => Idle(s)
=============================================================================
