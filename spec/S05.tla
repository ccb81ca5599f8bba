-------------------------------- MODULE S05 ---------------------------------
(* Dispatch: a name that may be an older command, one of two files of a newer  *)
(* command group, a file of the root and a file of a directory - each absent,  *)
(* not executable or executable - seen from every directory, with and without  *)
(* a command hook.  What must run is computed from the table below alone.      *)
EXTENDS MC

X == B("x")
Quick == ~Thorough
Flags == {0, 1, 2}                        \* absent, not executable, executable
Rank(f) == IF f = 0 THEN 0 ELSE f
\* places: 1 older group, 2 and 3 newer group, 4 root, 5 directory /d
Tables == {t \in [1..5 -> Flags] : (t[2] = 0 => t[3] = 0) /\ (Quick => t[3] # 1)}
TableSeq == SetToSeq(Tables)
\* a variant: hook, current directory
Variants == <<<<0, RootPath>>, <<1, RootPath>>, <<0, B("/d")>>, <<1, B("/d")>>>>

XFile(f) == F(X, <<>>, <<>>, IF f = 2 THEN 1 ELSE 0, 1, 1, B("content"))
Pick(t, places) == SelectSeq(places, LAMBDA p : t[p] # 0)

WorldOf(t, va) ==
  World(0, 64, 64, 32, B("h"), va[1], [p \in 1..5 |-> XFile(t[p])],
        <<Pick(t, <<1>>), Pick(t, <<2, 3>>), Pick(t, <<4>>), Pick(t, <<5>>)>>,
        <<MountOp(1, RootPath, 3), MountOp(2, B("/d"), 4)>>
        \o Opt(t[1] # 0, CAddOp(1, 1)) \o Opt(t[2] # 0, CAddOp(2, 2))
        \o <<Api1("cd", va[2]), GoOn>>)

NV == Len(Variants)
sWorlds == [i \in 1..(Len(TableSeq) * NV) |-> WorldOf(TableSeq[((i - 1) \div NV) + 1], Variants[((i - 1) % NV) + 1])]
TableOf(i) == TableSeq[((i - 1) \div NV) + 1]
VarOf(i) == Variants[((i - 1) % NV) + 1]

Names == <<"x", "/x", "d/x", "./x", "../x", "/d/x", "y", "d/../x">>
Tails == <<"", " a", " a  b c">>
sDepth == 1
sOps(i, s, h) ==
  {Line(Names[n] \o Tails[IF n = 1 THEN k ELSE ((n + i) % 3) + 1]) : n \in 1..Len(Names), k \in IF Thorough THEN 1..3 ELSE 1..1}
sEdges == FALSE
sAbs(s, h) == h
sSuffix(i) == <<>>
sInv(w, s, h) == TRUE

\* the file a name stands for, from the table
Meant(t, dir, name) ==
  LET at == CASE name = B("x") /\ t[2] # 0 -> 2
              [] name = B("x") /\ t[3] # 0 -> 3
              [] name = B("x") /\ t[1] # 0 -> 1
              [] name \in {B("x"), B("./x")} -> IF dir = RootPath THEN 4 ELSE 5
              [] name \in {B("/x"), B("../x")} -> 4
              [] name \in {B("/d/x")} -> 5
              [] name = B("d/x") -> IF dir = RootPath THEN 5 ELSE 0
              [] name = B("d/../x") -> IF dir = RootPath THEN 4 ELSE 5
              [] OTHER -> 0
  IN IF at # 0 /\ t[at] # 0 THEN at ELSE 0

sStep(w, s, op, t) ==
  LET i == wi
      args == Args(SubSeq(op.d, 1, Len(op.d) - 1))
      m == Meant(TableOf(i), VarOf(i)[2], args[1])
      hooks == IF VarOf(i)[1] = 1 THEN <<[c |-> "hook", f |-> 0, a |-> args, d |-> <<>>]>> ELSE <<>>
      runs  == IF m # 0 /\ TableOf(i)[m] = 2 THEN <<[c |-> "exec", f |-> m, a |-> args, d |-> <<>>]>> ELSE <<>>
      said(txt) == Occurrences(t.out, B(txt)) = 1
  IN /\ t.calls = hooks \o runs
     /\ (m = 0) => said("error: syntax error")
     /\ (m # 0 /\ TableOf(i)[m] = 1) => said("error: file not executable")
     /\ (m # 0 /\ TableOf(i)[m] = 2) => Occurrences(t.out, B("error")) = 0
     /\ EndsWith(t.out, PromptText(t.sh)) /\ Idle(t)
=============================================================================
