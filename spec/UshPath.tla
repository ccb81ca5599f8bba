------------------------------ MODULE UshPath -------------------------------
(* Path names: resolution against the current directory, normalisation,      *)
(* parent and last component.                                                *)
EXTENDS UshBytes

RootPath == <<SLASH>>
NoPath   == <<DOT>>        \* stands for a path that can name nothing

\* components of an absolute path; i is the index of the separator in front of
\* the next one.  A component always takes at least the byte after its
\* separator, so "//a" is the single component "/a".
RECURSIVE CompsFrom(_, _)
CompsFrom(p, i) ==
  IF i + 1 > Len(p) THEN <<<<>>>>
  ELSE LET S == {j \in (i+2)..Len(p) : p[j] = SLASH}
           j == IF S = {} THEN Len(p) + 1 ELSE CHOOSE x \in S : \A y \in S : x <= y
           c == SubSeq(p, i + 1, j - 1)
       IN IF j > Len(p) THEN <<c>> ELSE <<c>> \o CompsFrom(p, j)

Components(p) == CompsFrom(p, 1)

FromComponents(cs) == IF cs = <<>> THEN RootPath
                      ELSE ConcatAll([i \in 1..Len(cs) |-> <<SLASH>> \o cs[i]])

DotDot == <<DOT, DOT>>

Fold(cs) ==
  FoldLeft(LAMBDA acc, c :
             IF c = DotDot THEN (IF acc = <<>> THEN acc ELSE SubSeq(acc, 1, Len(acc) - 1))
             ELSE IF c = <<DOT>> THEN acc
             ELSE Append(acc, c),
           <<>>, cs)

Collapse(p) == IF p = RootPath THEN p ELSE FromComponents(Fold(Components(p)))

\* "in" seen from directory cwd (an absolute path), at most max - 1 bytes long
Resolve(cwd, in, max) ==
  LET raw == IF in # <<>> /\ in[1] = SLASH THEN in
             ELSE IF cwd = RootPath THEN cwd \o in
             ELSE cwd \o <<SLASH>> \o in
      str == IF Len(raw) > 1 /\ raw[Len(raw)] = SLASH THEN SubSeq(raw, 1, Len(raw) - 1) ELSE raw
  IN IF Len(raw) + 1 > max THEN NoPath ELSE Collapse(str)

ParentPath(p) ==
  IF Len(p) = 1 THEN <<>>
  ELSE LET k == LastIdx(p, SLASH)
       IN IF k = 0 THEN p ELSE IF k = 1 THEN RootPath ELSE SubSeq(p, 1, k - 1)

LastName(p) ==
  IF Len(p) = 1 THEN p ELSE Drop(p, LastIdx(p, SLASH))

Join(dir, name) == IF dir = RootPath THEN dir \o name ELSE dir \o <<SLASH>> \o name

\* the paths a directory can be mounted at
WellFormed(p) ==
  /\ p # <<>> /\ p[1] = SLASH
  /\ p = RootPath \/ \A i \in 1..Len(Components(p)) :
                        LET c == Components(p)[i]
                        IN c # <<>> /\ c[1] # SLASH /\ c # <<DOT>> /\ c # DotDot
=============================================================================
