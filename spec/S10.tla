-------------------------------- MODULE S10 ---------------------------------
(* Contents: cat is the identity and xxd is invertible, for every size around  *)
(* the row width and for every byte value.                                     *)
EXTENDS MC

Cols(v) == Config[v].cols
Pattern(k, n) ==
  [i \in 1..n |-> CASE k = 1 -> (i * 37 + 11) % 256
                    [] k = 2 -> 0
                    [] k = 3 -> IF i % 2 = 0 THEN 127 ELSE 31
                    [] k = 4 -> IF i = n THEN 0 ELSE 96 + (i % 26)
                    [] k = 5 -> 255
                    [] k = 6 -> IF i % 3 = 0 THEN CR ELSE LF]
Vs == <<0, 1, 3, 4>>
Rows2 == IF Thorough THEN 4 ELSE 2
Cases == {c \in [v : ToSet(Vs), k : 1..6, n : 0..(Rows2 * 16 + 1)] : c.n <= Rows2 * Cols(c.v) + 1 /\ (c.v \in {3, 4} => Thorough \/ c.k \in {1, 4})}
         \cup [v : {0}, k : {1}, n : {255, 256, 257}]
CaseSeq == SetToSeq(Cases)
Other == B("<g>")

sWorlds == [i \in 1..Len(CaseSeq) |->
  LET c == CaseSeq[i]
  IN World(c.v, 64, 64, 32, B("h"), 0,
           <<F(B("f"), <<>>, <<>>, 0, 1, 0, Pattern(c.k, c.n)), F(B("g"), <<>>, <<>>, 0, 1, 0, Other), F(B("e"), <<>>, <<>>, 0, 1, 0, <<>>)>>,
           <<<<1, 2, 3>>>>, <<MountOp(1, RootPath, 1), GoOn>>)]
sDepth == 1
Has(v, k) == \E c \in ToSet(Config[v].cmds) : c.k = k
sOps(i, s, h) ==
  LET v == CaseSeq[i].v
  IN (IF Has(v, "xxd") THEN {Line("xxd f")} ELSE {})
     \cup (IF Has(v, "cat") THEN {Line("cat f"), Line("cat f g e f"), Line("cat e f g")} ELSE {})
sEdges == FALSE
sAbs(s, h) == h
sSuffix(i) == <<>>
sInv(w, s, h) == TRUE

\* reading a dump back
HexOf(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE 999
RECURSIVE NumOf(_)
NumOf(d) == IF d = <<>> THEN 0 ELSE 16 * NumOf(SubSeq(d, 1, Len(d) - 1)) + HexOf(d[Len(d)])
\* one row: 8 digits, colon, space, three columns a byte, a space, one column a byte
RowBytes(row, n) ==
  LET cell(j) == SubSeq(row, 11 + 3 * (j - 1), 13 + 3 * (j - 1))
      used == {j \in 1..n : cell(j) # <<SP, SP, SP>>}
  IN [j \in 1..Cardinality(used) |-> NumOf(SubSeq(cell(j), 1, 2))]
RowOK(row, n, off) ==
  LET bytes == RowBytes(row, n)
      txt == SubSeq(row, 11 + 3 * n + 1, 11 + 3 * n + n)
  IN /\ Len(row) = 10 + 3 * n + 1 + n
     /\ NumOf(SubSeq(row, 1, 8)) = off /\ SubSeq(row, 9, 10) = B(": ")
     /\ row[11 + 3 * n] = SP
     /\ \A j \in 1..n : txt[j] = IF j > Len(bytes) THEN SP ELSE IF bytes[j] \in 32..126 THEN bytes[j] ELSE 46
     /\ \A j \in 1..Len(bytes) : row[13 + 3 * (j - 1)] = SP

sStep(w, s, op, t) ==
  LET data == w.fl[1].c
      n == Cols(w.v)
      b == Said(t, op)
      gets == [i \in 1..Len(t.calls) |-> t.calls[i].f]
  IN /\ b # <<256>> /\ \A i \in 1..Len(t.calls) : t.calls[i].c = "get"
     /\ CASE op = Line("cat f") -> b = data /\ gets = <<1>>
          [] op = Line("cat f g e f") -> b = data \o Other \o data /\ gets = <<1, 2, 3, 1>>
          [] op = Line("cat e f g") -> b = data \o Other /\ gets = <<3, 1, 2>>
          [] OTHER ->
               LET l == Lines(b)
                   rows == SubSeq(l, 1, Len(l) - 1)
               IN /\ gets = <<1>> /\ l[Len(l)] = <<>>
                  /\ Len(rows) = IF data = <<>> THEN 1 ELSE (Len(data) + n - 1) \div n
                  /\ \A r \in 1..Len(rows) : RowOK(rows[r], n, (r - 1) * n)
                  /\ ConcatAll([r \in 1..Len(rows) |-> RowBytes(rows[r], n)]) = data
=============================================================================
