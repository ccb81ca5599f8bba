-------------------------------- MODULE S07 ---------------------------------
(* The directory tree: every history of mounting, unmounting and moving over   *)
(* a small universe of paths, with the tree as a set of paths as the oracle.   *)
EXTENDS MC

P == <<RootPath, B("/a"), B("/a/a"), B("/b"), B("/a/ab")>>
NP == IF Thorough THEN 5 ELSE 4
Fl == <<F(B("f"), <<>>, <<>>, 0, 1, 0, B("1")), F(B("g"), <<>>, <<>>, 0, 1, 1, B("2")), F(B("a"), <<>>, <<>>, 0, 1, 0, B("3"))>>
Gr == <<<<1>>, <<2, 1>>, <<3>>, <<>>, <<2>>>>

sWorlds == <<World(0, 64, 64, 32, B("h"), 0, Fl, Gr, <<MountOp(1, RootPath, 1), GoOn>>),
             World(0, 64, 64, 32, B("h"), 0, Fl, Gr, <<MountOp(1, RootPath, 1), MountOp(2, P[2], 2), MountOp(3, P[3], 3), Api1("cd", P[3]), GoOn>>)>>
sDepth == IF Thorough THEN 9 ELSE 7

\* a directory object in use is not mounted again somewhere else; here it has one place
Idx == 2..NP
Rooted(s) == \E e \in ToSet(s.sh.fs) : e.p = RootPath
sOps(i, s, h) ==
 IF ~Rooted(s)             \* until there is a root again nothing can be served
 THEN {MountOp(1, RootPath, 1), MountOp(21, RootPath, 5), MountOp(2, P[2], 2), Api1("umount", RootPath), Api1("cd", RootPath)}
 ELSE
  {MountOp(k, P[k], k) : k \in {k \in Idx : \A e \in ToSet(s.sh.fs) : e.id # k}}
  \cup {MountOp(10 + k, P[k], 1) : k \in {k \in {2} : \E e \in ToSet(s.sh.fs) : e.id = k}}     \* occupied
  \cup {MountOp(22, RootPath, 3)}
  \* with the very object that is mounted: nothing of it may change
  \cup {MountOp(k, P[k], 5) : k \in {k \in {2, 3} : \E e \in ToSet(s.sh.fs) : e.id = k}}
  \cup {MountOp(2, B("/q/x"), 5) : k \in {k \in {2} : \E e \in ToSet(s.sh.fs) : e.id = k}}
  \cup {Api1("umount", P[k]) : k \in 1..NP}
  \cup {Api1("cd", P[k]) : k \in 1..NP}
  \cup {Line("cd .."), Line("cd a")}
sEdges == TRUE
\* the implementation may remember more than the abstract state: tell states apart
\* by the last operation, so that all pairs of operations occur
sAbs(s, h) == <<s.sh.fs, s.sh.cwd, Recent(h, 1)>>
Look(p) == Api1("node", p)
sSuffix(i) == <<MountOp(23, RootPath, 2)>> \o [k \in 1..NP |-> Look(P[k])] \o <<Api1("find", B("/a/f")), Api1("find", B("f")), Line("ls"), Line("ls /"), Line("ls /a"), Line("pwd"), Line("cat f")>>

\* ---------------------------------------------------------------- the oracle
Tree(s) == {e.p : e \in ToSet(s.sh.fs)}
Parent(p) == CASE p = P[2] \/ p = P[4] -> RootPath [] p = P[3] \/ p = P[5] -> P[2] [] OTHER -> B("/q")
HasChild(T, p) == \E q \in T \ {RootPath} : Parent(q) = p

sInv(w, s, h) ==
  /\ IF RootPath \in Tree(s) THEN s.sh.cwd \in ToSet(s.sh.fs) ELSE Tree(s) = {} /\ s.sh.cwd.p = RootPath
  /\ \A q \in Tree(s) \ {RootPath} : Parent(q) \in Tree(s)
  \* lookups by path see exactly the tree
  /\ \A k \in 1..NP : (Dir(s.sh, P[k]).id # 0) <=> P[k] \in Tree(s)

sStep(w, s, op, t) ==
  LET T == Tree(s)   U == Tree(t)   p == op.d
      same == U = T /\ t.sh.cwd.p = s.sh.cwd.p
  IN CASE op.k = "mount" ->
            IF p \in T THEN t.res = <<4>> /\ same /\ t.sh.fs = s.sh.fs
            ELSE IF p = RootPath THEN t.res = <<0>> /\ U = {p} /\ t.sh.cwd = [id |-> op.n, p |-> p, f |-> GroupOf(w, op.g)]
            ELSE IF Parent(p) \notin T THEN t.res = <<3>> /\ same /\ t.sh.fs = s.sh.fs
            ELSE t.res = <<0>> /\ U = T \cup {p} /\ t.sh.cwd.p = s.sh.cwd.p
       [] op.k = "umount" ->
            IF p \notin T THEN t.res = <<1>> /\ same /\ t.sh.fs = s.sh.fs
            ELSE IF HasChild(T, p) THEN t.res = <<2>> /\ same /\ t.sh.fs = s.sh.fs
            ELSE /\ t.res = <<0>> /\ U = T \ {p}
                 /\ t.sh.cwd.p = IF s.sh.cwd.p = p /\ p # RootPath THEN Parent(p) ELSE s.sh.cwd.p
       [] op.k = "cd" ->
            U = T /\ IF p \in T THEN t.res = <<0>> /\ t.sh.cwd.p = p ELSE t.res = <<1>> /\ same
       [] OTHER -> U = T
=============================================================================
