-------------------------------- MODULE S15 ---------------------------------
(* Messages: every kind of message, at every point of every kind of output.    *)
EXTENDS MC

Fl == <<F(B("x"), <<B("dx")>>, <<B("help")>>, 1, 1, 1, B("abc")), F(B("xy"), <<>>, <<>>, 0, 1, 0, <<>>)>>
sWorlds == <<World(0, 32, 32, 32, B("h"), 1, Fl, <<<<1, 2>>>>, <<MountOp(1, RootPath, 1), GoOn>>),
             World(1, 32, 24, 32, B("h"), 0, Fl, <<<<1, 2>>>>, <<MountOp(1, RootPath, 1), GoOn>>)>>
Jobs == <<B("ls") \o <<CR>>, B("x") \o <<TAB>>, B("help x") \o <<CR>>, B("q") \o <<CR>>, B("ab"), <<ETX>>, B("cat x xy") \o <<CR>>, B("xxd x") \o <<CR>>,
          B("echo hi") \o <<CR>>>>
NJ == IF Thorough THEN 9 ELSE 6
Total(i, j) == Len(Apply(sWorlds[i], Start(sWorlds[i]), Typ(Jobs[j])).out)
Totals == [i \in 1..2 |-> [j \in 1..NJ |-> Total(i, j)]]
M == B("m:") \o <<CR, LF>> \o B("!")
Kinds1 == {Api1(k, M) : k \in {"print", "printo", "pnnl", "pnnlo", "flush"}} \cup {PrintfOp(1, M), StatusOp(4), Api1("print", <<>>), PrintfOp(1, <<>>)}
After == Typ(<<ETX>> \o B("x 1") \o <<CR>>)      \* what is left of the job is dropped first
sDepth == 5
JobOf(h) == CHOOSE j \in 1..NJ : Jobs[j] = h[1].d
sOps(i, s, h) ==
  CASE Len(h) = 0 -> {Raw(Jobs[j]) : j \in 1..NJ}
    [] Len(h) = 1 -> {Acc(n) : n \in {n \in 0..(Totals[i][JobOf(h)] + 1) : i = 1 \/ n % 3 = 0 \/ Thorough}}
    [] Len(h) = 2 -> Kinds1
    [] Len(h) = 3 -> {GoOn}
    [] Len(h) = 4 -> {After}
sEdges == FALSE
sAbs(s, h) == h
sSuffix(i) == <<>>
sInv(w, s, h) == Len(h) >= 4 => Idle(s)

StatusText(w, c) == Config[w.v].status[c + 1]
\* what must come out next, given the call and what was being written
Promised(w, s, op) ==
  CASE op.k = "status" -> StatusText(w, op.n) \o CRLF
       [] op.k \in {"print", "printo"} -> op.d \o CRLF
       [] OTHER -> op.d

sStep(w, s, op, t) ==
  /\ op.k \in {"print", "printo", "pnnl", "pnnlo", "flush", "printf", "status"} => t.calls = <<>> /\ t.out = <<>>
  /\ (op = After) =>
       LET runs == SelectSeq(t.calls, LAMBDA c : c.c = "exec")
       IN Len(runs) = 1 /\ runs[1].a = <<B("x"), B("1")>> /\ EndsWith(t.out, PromptText(t.sh))
  /\ op = GoOn =>
       LET call == hist[3]
           p == PromptText(t.sh)
           m == Promised(w, s, call) \o p
       IN IF call.k = "printf"
          THEN Occurrences(t.out, call.d \o p) >= 1 \/ Occurrences(t.out, B("overflow error") \o CRLF) = 1
               \/ (call.d = <<>> /\ t.out = <<>>)
          ELSE StartsWith(t.out, m)

=============================================================================
