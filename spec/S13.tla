-------------------------------- MODULE S13 ---------------------------------
(* Readiness: sessions in which the interface refuses a byte, or has no input, *)
(* at every single point (thorough: at every pair of points).  The model does  *)
(* not know about refusals at all: S13b shows that it need not.                *)
EXTENDS MC

Fl == <<F(B("x"), <<B("dx")>>, <<B("help")>>, 1, 1, 1, B("ab") \o <<0, 255>> \o B("c")), F(B("xy"), <<>>, <<>>, 0, 1, 0, <<>>)>>
Sessions ==
  <<B("ls") \o <<CR>> \o B("cd d") \o <<CR>>,
    B("x") \o <<TAB, TAB>> \o B("y") \o <<BS, BS>> \o B("x 1") \o <<LF>>,
    B("cat x xy x") \o <<CR>> \o B("q") \o <<CR>>,
    B("xxd x") \o <<CR>> \o B("a") \o <<ETX>>,
    B("echo ab > x") \o <<CR, CR>> \o B("pwd") \o <<CR>>,
    B("help x") \o <<CR, ESC>> \o B("[A\\x41") \o <<DEL, LF>>>>
NS == Len(Sessions)
\* the length of the output tells how many points there are
W0(i) == World(IF i = 3 THEN 1 ELSE 0, 32, 32, 32, B("h"), 1, Fl, <<<<1, 2>>, <<2>>>>, <<MountOp(1, RootPath, 1), MountOp(2, B("/d"), 2), GoOn>>)
Len0(i) == Len(Apply(W0(i), Start(W0(i)), Typ(Sessions[i])).out)
Ones(n) == [k \in 1..n |-> 49]
Zeros(n) == [k \in 1..n |-> 48]
sWorlds == [i \in 1..NS |-> W0(i)]
sDepth == 2
sOps(i, s, h) ==
  IF h = <<>>
  THEN {WPat(Ones(k) \o Zeros(z)) : k \in 0..(Len0(i) - 1), z \in IF Thorough THEN {1, 2, 5} ELSE {2}}
       \cup {WPat(Zeros(1) \o Ones(k) \o Zeros(1)) : k \in 0..(Len0(i) - 2)}
       \cup {RPat(Ones(k) \o Zeros(z)) : k \in 0..Len(Sessions[i]), z \in {1, 3}}
       \cup (IF Thorough THEN {WPat(Ones(k) \o Zeros(1) \o Ones(m) \o Zeros(2)) : k \in 0..(Len0(i) - 2), m \in 1..10} ELSE {})
  ELSE {Typ(Sessions[i])}
sEdges == FALSE
sAbs(s, h) == h
sSuffix(i) == <<Line("x")>>
sInv(w, s, h) == TRUE
sStep(w, s, op, t) == op.k = "type" => Idle(t) /\ Len(t.out) = Len0(wi)
=============================================================================
