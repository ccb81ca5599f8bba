-------------------------------- MODULE S09 ---------------------------------
(* Listings: every combination of file attributes, name lengths around the     *)
(* alignment and output buffer sizes, for ls, help and help FILE.              *)
EXTENDS MC

Descs == <<<<>>, <<<<>>>>, <<B("some desc")>>>>
Helps == <<<<>>, <<<<>>>>, <<B("usage: x")>>>>
Lens == IF Thorough THEN <<1, 4, 5, 6, 15, 16, 17, 20>> ELSE <<1, 5, 16, 17>>
Outs == IF Thorough THEN <<4, 6, 7, 8, 16, 20, 24, 25, 26, 64>> ELSE <<4, 8, 24, 64>>
Name(n) == [i \in 1..n |-> 97 + (i % 26)]
Plain0 == F(B("other"), <<>>, <<>>, 1, 0, 0, <<>>)

\* every attribute with every layout would be many: the flags vary with all the
\* texts in the largest buffer, the layouts with all the texts
Attr == [d : 1..3, h : 1..3, x : {0, 1}, g : {0, 1}, s : {0, 1}, l : {Lens[2]}, o : {64}, v : {0, 1}]
        \cup [d : 1..3, h : 1..3, x : {1}, g : {0}, s : {1}, l : ToSet(Lens), o : ToSet(Outs), v : {0, 1}]
AttrSeq == SetToSeq(Attr)

FileFor(a) == F(Name(a.l), Descs[a.d], Helps[a.h], a.x, a.g, a.s, <<>>)
sWorlds == [i \in 1..Len(AttrSeq) |->
  LET a == AttrSeq[i]
  IN World(a.v, 64, a.o, 32, B("h"), 0, <<FileFor(a), Plain0>>, <<<<2, 1>>, <<1>>>>,
           <<MountOp(1, RootPath, 1), MountOp(2, B("/e"), 2), MountOp(3, B("/e/s"), 2), MountOp(4, B("/l"), 2), CAddOp(1, 1), GoOn>>)]
sDepth == 1
sOps(i, s, h) == {Line("ls"), Line("ls e"), Line("help"), Typ(B("help ") \o Name(AttrSeq[i].l) \o <<CR>>)}
sEdges == FALSE
sAbs(s, h) == h
sSuffix(i) == <<>>
sInv(w, s, h) == TRUE

\* the rows a reader expects, from the attributes
Sty(w, x) == IF w.v = 0 THEN <<ESC>> \o B(x) ELSE <<>>
Width(w) == IF w.v = 0 THEN 16 ELSE 5
NameCols(w, f) ==
  IF f.d = <<>> THEN f.n
  ELSE f.n \o [i \in 1..(IF Len(f.n) < Width(w) THEN Width(w) - Len(f.n) ELSE 0) |-> SP]
       \o <<SP>> \o Sty(w, "[33m") \o B("- ") \o f.d[1] \o Sty(w, "[0m")
LsCols(w, f) ==
  <<45, IF f.g = 1 THEN 114 ELSE 45, IF f.s = 1 THEN 119 ELSE 45, IF f.x = 1 THEN 120 ELSE 45, IF f.h # <<>> THEN 104 ELSE 45, SP>>
  \o NameCols(w, f)
DirCols(w, n) == B("d---- ") \o Sty(w, "[32m") \o B(n) \o Sty(w, "[0m")

sStep(w, s, op, t) ==
  LET b == Said(t, op)
      f == w.fl[1]
      big == w.osz = 64
  IN /\ t.calls = <<>> /\ b # <<256>>
     /\ CASE op = Line("ls") -> big =>
               Lines(b) = <<DirCols(w, "."), DirCols(w, "l/"), DirCols(w, "e/"), LsCols(w, Plain0), LsCols(w, f), <<>>>>
          [] op = Line("ls e") -> big =>
               Lines(b) = <<DirCols(w, "."), DirCols(w, ".."), DirCols(w, "s/"), LsCols(w, f), <<>>>>
          [] op = Line("help") ->
               \* the two commands come first, then the built-in ones
               LET l == Lines(b) IN Len(l) = 10 /\ (big => l[1] = NameCols(w, Plain0) /\ l[2] = NameCols(w, f))
          [] OTHER ->
               IF f.h = <<>> THEN Occurrences(b, IF w.v = 0 THEN B("error: no help available") ELSE B("Fehler: keine Hilfe")) = 1
               ELSE b = f.h[1]
     \* whatever the buffer, rows stay rows and nothing of a row is out of order
     /\ op = Line("ls") => Len(Lines(b)) = 6
=============================================================================
