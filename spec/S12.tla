-------------------------------- MODULE S12 ---------------------------------
(* Completion: every placement of a few names as command, file or directory    *)
(* (or nowhere), every unfinished line over them, several input buffer sizes.  *)
EXTENDS MC

U == <<B("a"), B("ab"), B("abc"), B("b")>>
U5 == IF Thorough THEN U \o <<B("abd")>> ELSE U
Kinds3 == {0, 1, 2, 3}                         \* nowhere, command, file, directory
Places == [1..Len(U5) -> Kinds3]
PlaceSeq == SetToSeq(Places)
Sizes == IF Thorough THEN <<32, 6, 5, 4, 3>> ELSE <<32, 5, 4>>
NS == Len(Sizes)
FlU == [i \in 1..Len(U5) |-> F(U5[i], <<>>, <<>>, 1, 0, 0, <<>>)]
At(p, k) == SelectSeq([i \in 1..Len(U5) |-> i], LAMBDA i : p[i] = k)
PlaceOf(i) == PlaceSeq[((i - 1) \div NS) + 1]
sWorlds == [i \in 1..(Len(PlaceSeq) * NS) |->
  LET p == PlaceOf(i)
      dirs == At(p, 3)
  IN World(0, Sizes[((i - 1) % NS) + 1], 64, 32, B("h"), 1, FlU, <<At(p, 2), At(p, 1), <<>>>>,
           <<MountOp(1, RootPath, 1)>> \o [k \in 1..Len(dirs) |-> MountOp(dirs[k] + 1, RootPath \o U5[dirs[k]], 3)]
           \o Opt(At(p, 1) # <<>>, CAddOp(1, 2)) \o <<GoOn>>)]
Inputs == {<<>>, B("a"), B("ab"), B("abc"), B("x a"), B("x "), B("b"), B(" a"), B("c")}
sDepth == 2
sOps(i, s, h) ==
  IF h = <<>> THEN {Typ(x \o <<TAB>>) : x \in {x \in Inputs : Len(x) < Sizes[((i - 1) % NS) + 1]}}
  ELSE {Typ(<<TAB>>)}
sEdges == FALSE
sAbs(s, h) == h
sSuffix(i) == <<Typ(<<CR>>)>>
sInv(w, s, h) == TRUE

\* ---------------------------------------------------------------- the oracle
Builtins == {B("help"), B("ls"), B("cd"), B("pwd"), B("cat"), B("xxd"), B("echo")}
NamesOf(p) == Builtins \cup {U5[k] : k \in {k \in 1..Len(U5) : p[k] # 0}}
Word(line) ==                         \* what follows the last space
  LET S == {k \in 0..Len(line) : k = 0 \/ line[k] = SP}
      k == CHOOSE k \in S : \A j \in S : j <= k
  IN SubSeq(line, k + 1, Len(line))
Cands(p, x) == {n \in NamesOf(p) : StartsWith(n, x)}
\* the longest text that every candidate starts with
Common(Cs) ==
  LET c == CHOOSE c \in Cs : TRUE
      S == {k \in 0..Len(c) : \A d \in Cs : StartsWith(d, SubSeq(c, 1, k))}
  IN SubSeq(c, 1, CHOOSE k \in S : \A j \in S : j <= k)

sStep(w, s, op, t) ==
  LET typed == SubSeq(op.d, 1, Len(op.d) - 1)
      line == s.sh.line \o typed
      x == Word(line)
      p == PlaceOf(wi)
      Cs == Cands(p, x)
      ext == IF Cs = {} THEN <<>> ELSE Drop(Common(Cs), Len(x))
      room == w.isz - 1 - Len(line)
      ins == SubSeq(ext, 1, IF Len(ext) < room THEN Len(ext) ELSE room)
      shown == Drop(t.out, Len(typed))
      listed == Lines(SubSeq(shown, 1, Len(shown) - Len(PromptText(t.sh)) - Len(line)))
  IN /\ t.sh.line = line \o ins
     /\ t.calls = <<>>
     /\ SubSeq(t.out, 1, Len(typed)) = typed
     /\ IF Cardinality(Cs) <= 1 \/ ins # <<>> THEN shown = ins
        ELSE /\ EndsWith(shown, PromptText(t.sh) \o line)
             /\ listed[1] = <<>> /\ listed[Len(listed)] = <<>>
             /\ Len(listed) = Cardinality(Cs) + 2
             /\ {listed[k] : k \in 2..(Len(listed) - 1)} = Cs
             \* commands before files before directories
             /\ \A i, j \in 2..(Len(listed) - 1) : i < j =>
                  LET kind(n) == IF n \in Builtins THEN 1 ELSE p[CHOOSE k \in 1..Len(U5) : U5[k] = n]
                  IN kind(listed[i]) <= kind(listed[j])
=============================================================================
