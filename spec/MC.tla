--------------------------------- MODULE MC ---------------------------------
(* Exhaustive exploration of the closed system within a scenario: a sequence   *)
(* of worlds, the operations the environment may choose at each step, and a    *)
(* bound on their number.  Every behaviour explored is also printed, so that   *)
(* it can be replayed on the real shell.                                       *)
EXTENDS App, Json, TLC, TLCExt, IOUtils

CONSTANTS Worlds,          \* sequence of worlds
          Depth,           \* number of operations
          Ops(_, _, _),    \* world index, state, history -> operations to try next
          Step(_, _, _, _),\* world, state, operation, state: the property of a step
          Inv(_, _, _),    \* world, state, history: the property of a state
          Abstract(_, _),  \* state, history -> what distinguishes states
          EmitEdges,       \* print every transition, or only complete histories
          Suffix(_)        \* world index -> operations added to every printed history (to look around)

VARIABLES wi, st, hist
vars == <<wi, st, hist>>

W == Worlds[wi]

\* TLC must compute lazy functions before it stores a state; the view does not show them all
Concrete(x) == TLCFP(x) = TLCFP(x)

Init ==
  /\ wi \in 1..Len(Worlds)
  /\ st = Start(W)
  /\ hist = <<>>
  /\ Concrete(st)
  /\ PrintT("@W " \o ToString(wi) \o " " \o ToJson(W))

Emit(h) == PrintT("@T " \o ToJson([w |-> wi, h |-> h \o Suffix(wi)]))

Next ==
  /\ Len(hist) < Depth
  /\ \E op \in Ops(wi, st, hist) :
       /\ hist' = Append(hist, op)
       /\ st' = Apply(W, st, op)
       /\ wi' = wi
       /\ Concrete(st')
       /\ (EmitEdges \/ Len(hist') = Depth \/ Ops(wi, st', hist') = {}) => Emit(hist')
       /\ Assert(Step(W, st, op, st'), <<"STEP", wi, hist'>>)

Spec == Init /\ [][Next]_vars

View == <<wi, Abstract(st, hist)>>

Thorough == IOEnv.USH_TIER = "thorough"

\* what of a state can matter once the shell is idle and no output is pending
Core(s) == <<s.sh.line, s.sh.esc, s.sh.fs, s.sh.cwd, s.sh.cmds, s.sh.live, s.store, s.blk>>

NoStep(w, s, op, t) == TRUE
NoInv(w, s, h) == TRUE
NoSuffix(i) == <<>>
Histories(s, h) == h
States(s, h) == Core(s)

\* the last n operations
Recent(h, n) == IF Len(h) <= n THEN h ELSE SubSeq(h, Len(h) - n + 1, Len(h))

\* all byte strings over a set of bytes with a length in n..m
Strings(A, n, m) == UNION {[1..k -> A] : k \in n..m}

\* all sequences picking one element from each set
RECURSIVE Product(_)
Product(ss) == IF ss = <<>> THEN {<<>>} ELSE {<<x>> \o y : x \in Head(ss), y \in Product(Tail(ss))}

Opt(b, x) == IF b THEN <<x>> ELSE <<>>

\* what a typed line made the shell write, between the echo and the next prompt;
\* <<256>> if the echo or the prompt is not there
Said(t, op) ==
  LET echo == SubSeq(op.d, 1, Len(op.d) - 1) \o CRLF
      p == PromptText(t.sh)
      n == Len(t.out) - Len(echo) - Len(p)
  IN IF n >= 0 /\ StartsWith(t.out, echo) /\ EndsWith(t.out, p) THEN SubSeq(t.out, Len(echo) + 1, Len(echo) + n) ELSE <<256>>

\* the lines of a text in which every line is ended by CR LF
RECURSIVE Lines(_)
Lines(d) ==
  LET S == {i \in 1..(Len(d) - 1) : d[i] = CR /\ d[i+1] = LF}
      i == CHOOSE i \in S : \A j \in S : i <= j
  IN IF S = {} THEN <<d>> ELSE <<SubSeq(d, 1, i - 1)>> \o Lines(Drop(d, i + 1))

\* ------------------------------------------------------- universal invariants
NoDup(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j

TreeOK(s) ==
  /\ NoDup([i \in 1..Len(s.fs) |-> s.fs[i].p])
  /\ \A i \in 1..Len(s.fs) : s.fs[i].p # RootPath => ParentDir(s, s.fs[i].p).id # 0
  /\ s.live /\ Dir(s, RootPath).id # 0 => \E i \in 1..Len(s.fs) : s.fs[i] = s.cwd

BufferOK(s) ==
  /\ Len(s.line) < s.isz /\ Len(s.plin) < s.isz
  /\ s.cur.s = 1 => Len(s.cur.d) <= s.osz
  /\ s.pos <= Len(s.cur.d)
  /\ Len(s.cwd.p) < s.pmax

Always == BufferOK(st.sh) /\ TreeOK(st.sh) /\ st.sh.esc \in 0..2

Universal == Always
Scenario == Inv(W, st, hist)
=============================================================================
