-------------------------------- MODULE S01 ---------------------------------
(* Line editing: all sequences of editing keys.  The line is compared with a   *)
(* definition by positions: which keys an escape sequence swallows, which keys *)
(* end a line, which keys are cancelled by a later backspace.                  *)
EXTENDS MC

Keys == {97, SP, BS, DEL, ESC, 91, 79, ETX, CR, LF, 0, 255}
N == IF Thorough THEN 5 ELSE 4

sWorlds == <<World(0, 32, 64, 32, B("h"), 1, <<F(B("a"), <<>>, <<>>, 1, 0, 0, <<>>)>>, <<<<1>>>>, <<MountOp(1, RootPath, 1), GoOn>>)>>
sDepth == N + 1
sOps(i, s, h) == IF Len(h) < N THEN {Typ(<<k>>) : k \in Keys}
                 ELSE IF Len(h) = N THEN {Typ(<<CR>>)} ELSE {}
sEdges == FALSE
sAbs(s, h) == h
sSuffix(i) == <<>>

KeysOf(h) == ConcatAll([i \in 1..Len(h) |-> h[i].d])

Ordinary(k) == k \notin {ETX, BS, DEL, TAB, ESC}
Between(ks, j, i) == SelectSeq(SubSeq(ks, j + 1, i - 1), Ordinary)
Swallowed(ks, i) ==
  /\ Ordinary(ks[i])
  /\ \E j \in 1..(i - 1) :
       /\ ks[j] = ESC
       /\ \A m \in (j + 1)..(i - 1) : ks[m] \notin {ESC, ETX}
       /\ LET b == Between(ks, j, i) IN b = <<>> \/ (Len(b) = 1 /\ b[1] \in {91, 79})
Ends(ks, i) == ks[i] = ETX \/ (ks[i] \in {CR, LF} /\ ~Swallowed(ks, i))

\* the typed byte at i survives if the backspaces after it never reach it
Typed(ks, i) == Ordinary(ks[i]) /\ ~Swallowed(ks, i)
Survives(ks, i) ==
  Typed(ks, i) /\
  \A m \in i..Len(ks) :
     Cardinality({x \in (i + 1)..m : ks[x] \in {BS, DEL}}) <= Cardinality({x \in (i + 1)..m : Typed(ks, x)})

LineOf(ks) ==
  LET E == {i \in 1..Len(ks) : Ends(ks, i)}
      last == IF E = {} THEN 0 ELSE CHOOSE i \in E : \A j \in E : j <= i
      cur == SubSeq(ks, last + 1, Len(ks))
      S == {i \in 1..Len(cur) : Survives(cur, i)}
  IN [n \in 1..Cardinality(S) |-> cur[CHOOSE i \in S : Cardinality({j \in S : j < i}) = n - 1]]

sInv(w, s, h) == Idle(s) => s.sh.line = LineOf(KeysOf(h))

\* the hook sees each submitted line once
sStep(w, s, op, t) ==
  LET hooks == SelectSeq(t.calls, LAMBDA c : c.c = "hook")
  IN IF Len(op.d) = 1 /\ op.d[1] \in {CR, LF} /\ s.sh.esc = 0 /\ Args(s.sh.line) # <<>>
     THEN Len(hooks) = 1 /\ hooks[1].a = Args(s.sh.line)
     ELSE hooks = <<>>
=============================================================================
