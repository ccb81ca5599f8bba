-------------------------------- MODULE S19 ---------------------------------
(* Configurations: the same sessions in every build configuration.  What is    *)
(* there behaves as in the full configuration, what is not is an unknown name. *)
EXTENDS MC

Fl == <<F(B("x"), <<B("dx")>>, <<B("usage x")>>, 1, 1, 1, B("abc") \o <<0, 200>>), F(B("xy"), <<>>, <<>>, 0, 1, 0, B("0123456789abcdefghij")),
        F(B("nn"), <<>>, <<<<>>>>, 1, 0, 1, <<>>), F(B("ls"), <<>>, <<>>, 1, 0, 0, <<>>)>>
NC == 15
Wv(v, k) == World(v, 48, 64, 32, B("h"), 1, Fl, <<<<1, 2>>, <<3>>, <<4>>>>,
               <<MountOp(1, RootPath, 1), MountOp(2, B("/d"), 2), CAddOp(5, 2)>> \o Opt(k = 2, CAddOp(6, 3)) \o <<GoOn>>)
sWorlds == [i \in 1..(2 * NC) |-> Wv((i - 1) % NC, IF i > NC THEN 2 ELSE 1)]
BuiltinNames == <<"help", "ls", "cd", "pwd", "cat", "xxd", "echo">>
Lines1 == {B(l) : l \in {"help", "help x", "help nn", "help q", "help xy", "ls", "ls d", "ls q", "ls d d", "cd d", "cd q", "cd", "pwd", "pwd 1", "cat x", "cat x xy", "cat nn", "cat",
             "xxd x", "xxd xy", "xxd nn", "xxd", "echo", "echo a b", "echo hi", "echo a\\x41 > x", "echo a > xy", "echo a > q", "x", "x 1 2", "xy", "nn 1", "q", "/x", "d/nn",
             "help ls", "help cat", "help echo", "ls /", "cat /x d/q"}}
Tabs == {B(l) \o <<TAB>> : l \in {"", "x", "e", "ls d", "q", "h"}}
sDepth == 2
sOps(i, s, h) == IF h = <<>> THEN {Typ(l \o <<CR>>) : l \in Lines1} \cup {Typ(l) : l \in Tabs}
                 ELSE IF h[1].d[Len(h[1].d)] = TAB THEN {Typ(<<TAB>>), Typ(<<CR>>)}
                 ELSE IF Thorough THEN {Typ(l \o <<CR>>) : l \in Lines1} ELSE {Line("x"), Line("pwd"), Line("cat x")}
sEdges == FALSE
sAbs(s, h) == h
sSuffix(i) == <<Line("ls"), Line("help"), Api1("print", B("m")), GoOn, Typ(<<ETX>>)>>
sInv(w, s, h) == Idle(s)

Has(v, n) == \E c \in ToSet(Config[v].cmds) : c.n = n
First0(d) == LET a == Args(d) IN IF a = <<>> THEN <<>> ELSE a[1]
NoEsc(d) == \A i \in 1..Len(d) : d[i] # ESC
Styled2(w) == w.v \in {0, 2, 3, 5, 7, 9, 11, 13, 14}
\* the same step in the full configuration
Full(w, h, op) == LET f == [w EXCEPT !.v = 0] IN Apply(f, FoldLeft(LAMBDA s, o : Apply(f, s, o), Start(f), h), op)

sStep(w, s, op, t) ==
  LET body == IF op.d[Len(op.d)] \in {CR, TAB} THEN SubSeq(op.d, 1, Len(op.d) - 1) ELSE op.d
      c == First0(body)
      builtin == c \in {B(BuiltinNames[k]) : k \in 1..7} /\ ~(c = B("ls") /\ wi > NC)      \* the application may have an ls of its own
      f == Full(w, <<>>, op)
  IN /\ Styled2(w) \/ NoEsc(t.out)
     /\ op.d[Len(op.d)] = TAB /\ ~C(s.sh).comp => t.out = body /\ t.sh.line = s.sh.line \o body
     \* an absent command is a name like any other
     /\ (Len(hist) = 0 /\ builtin /\ ~Has(w.v, c) /\ op.d[Len(op.d)] = CR) =>
          t.store = s.store /\ t.sh.cwd = s.sh.cwd /\ Occurrences(t.out, Config[w.v].status[6]) = 1
          /\ \A i \in 1..Len(t.calls) : t.calls[i].c = "hook"
     \* everything else does what it does in the full configuration
     /\ (Len(hist) = 0 /\ (~builtin \/ Has(w.v, c)) /\ op.d[Len(op.d)] = CR
         /\ (c = B("help") /\ Len(Args(body)) = 2 => Args(body)[2] \notin {B(BuiltinNames[k]) : k \in 1..7})) =>
          /\ t.calls = f.calls /\ t.store = f.store /\ t.sh.cwd = f.sh.cwd
          /\ c \in {B("pwd"), B("cat"), B("echo")} /\ Occurrences(f.out, B("error")) = 0 => Said(t, op) = Said(f, op)
          /\ \A k \in 1..13 : (Occurrences(f.out, Config[0].status[k]) > 0 /\ k # 1) => Occurrences(t.out, Config[w.v].status[k]) = 1
=============================================================================
