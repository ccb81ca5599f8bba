-------------------------------- MODULE S06 ---------------------------------
(* Paths: every string over the bytes that matter to a path, from every        *)
(* directory, with path limits down to the smallest that holds the tree.       *)
EXTENDS MC

A == {SLASH, DOT, 97, 100}
L == IF Thorough THEN 5 ELSE 4
Paths == Strings(A, 0, L)

Fl == <<F(B("aa"), <<>>, <<>>, 0, 0, 0, <<>>), F(B("d"), <<>>, <<>>, 0, 1, 0, B("content")), F(B("a"), <<>>, <<>>, 0, 0, 0, <<>>)>>
Bases == <<RootPath, B("/a"), B("/a/a")>>
Limits == <<5, 6, 8, 32>>
DirPaths == {RootPath, B("/a"), B("/a/a"), B("/d")}
FileAt == [p \in {B("/aa"), B("/a/d"), B("/a/a/a")} |-> CASE p = B("/aa") -> 1 [] p = B("/a/d") -> 2 [] p = B("/a/a/a") -> 3]

sWorlds == [i \in 1..(Len(Bases) * Len(Limits)) |->
  World(0, 64, 64, Limits[((i - 1) \div Len(Bases)) + 1], B("h"), 0, Fl, <<<<1>>, <<2>>, <<3>>, <<>>>>,
        <<MountOp(1, RootPath, 1), MountOp(2, B("/a"), 2), MountOp(3, B("/a/a"), 3), MountOp(4, B("/d"), 4),
          Api1("cd", Bases[((i - 1) % Len(Bases)) + 1]), GoOn>>)]
sDepth == 1
sOps(i, s, h) ==
  {Api1("cd", p) : p \in Paths} \cup {Api1("find", p) : p \in Paths}
  \cup {Typ(B("cd ") \o p \o <<CR>>) : p \in IF Thorough \/ i % 2 = 0 THEN Paths \ {<<>>} ELSE {}}
sEdges == FALSE
sAbs(s, h) == h
sSuffix(i) == <<Line("pwd")>>
sInv(w, s, h) == TRUE

\* ------------------------------------------------- what a path means, again
\* components between slashes; a leading slash starts at the root, one trailing
\* slash is dropped; with an empty component elsewhere there is nothing to say
RECURSIVE Split(_)
Split(p) ==
  LET S == {j \in 1..Len(p) : p[j] = SLASH}
      j == IF S = {} THEN Len(p) + 1 ELSE CHOOSE x \in S : \A y \in S : x <= y
  IN IF S = {} THEN <<p>> ELSE <<SubSeq(p, 1, j - 1)>> \o Split(Drop(p, j))

Trim(p) == IF Len(p) > 1 /\ p[Len(p)] = SLASH THEN SubSeq(p, 1, Len(p) - 1) ELSE p
Steps(p) == LET q == Trim(p) IN IF q = RootPath THEN <<>> ELSE Split(IF q[1] = SLASH THEN Tail(q) ELSE q)
Plain1(p) == p # <<>> /\ \A i \in 1..Len(Steps(p)) : Steps(p)[i] # <<>>

RECURSIVE Walk(_, _)
Up(dir) == IF dir = <<>> THEN <<>> ELSE SubSeq(dir, 1, Len(dir) - 1)
Walk(dir, cs) ==
  IF cs = <<>> THEN dir
  ELSE Walk(CASE Head(cs) = <<DOT>> -> dir [] Head(cs) = DotDot -> Up(dir) [] OTHER -> Append(dir, Head(cs)), Tail(cs))

Reached(base, p) ==
  LET d == Walk(IF p[1] = SLASH \/ base = RootPath THEN <<>> ELSE Split(Tail(base)), Steps(p))
  IN IF d = <<>> THEN RootPath ELSE ConcatAll([i \in 1..Len(d) |-> <<SLASH>> \o d[i]])

\* the length that counts: the path put after the current directory
Full(base, p) == IF p # <<>> /\ p[1] = SLASH THEN Len(p) ELSE IF base = RootPath THEN 1 + Len(p) ELSE Len(base) + 1 + Len(p)
Beyond(w, base, p) == Full(base, p) + 1 > w.pmax

\* resolution agrees with walking, resolved paths resolve to themselves, and
\* detours through '.' and 'name/..' lead to the same place
Dots == <<B("./"), B("a/../"), B("d/./../"), B("a/a/../../")>>
Body(p) == IF Trim(p) = RootPath THEN <<>> ELSE Trim(p)
ASSUME \A p \in Paths, b \in DirPaths : Plain1(p) =>
  LET r == Resolve(b, p, 64)
  IN /\ r = Reached(b, p)
     /\ \A c \in DirPaths : Resolve(c, r, 64) = r
     /\ p[1] # SLASH => \A k \in 1..Len(Dots) : Resolve(b, Dots[k] \o p, 64) = r
     /\ Resolve(b, Body(p) \o B("/."), 64) = r /\ Resolve(b, Body(p) \o B("/a/.."), 64) = r
     /\ Resolve(b, Body(p) \o B("/.."), 64) = (IF r = RootPath THEN r ELSE ParentPath(r))

sStep(w, s, op, t) ==
  LET typed == op.k = "type"
      p == IF typed THEN SubSeq(op.d, 4, Len(op.d) - 1) ELSE op.d
      base == s.sh.cwd.p
      goal == IF Beyond(w, base, p) THEN <<>> ELSE Reached(base, p)
  IN IF p = <<>> THEN t.sh.cwd = s.sh.cwd
     ELSE IF ~Plain1(p) THEN TRUE
     ELSE IF op.k = "find" THEN t.res = <<IF goal \in DOMAIN FileAt THEN FileAt[goal] ELSE 0>> /\ t.sh = s.sh
     ELSE IF goal \in DirPaths
     THEN t.sh.cwd.p = goal /\ (IF typed THEN Occurrences(t.out, B("error")) = 0 ELSE t.res = <<0>>)
     ELSE t.sh.cwd = s.sh.cwd /\ (IF typed THEN Occurrences(t.out, B("error: directory not found")) = 1 ELSE t.res = <<1>>)
=============================================================================
