-------------------------------- MODULE S18 ---------------------------------
(* Limits: the smallest buffers and path limits against names around them, for *)
(* every command.  The specification says what must happen instead of damage;  *)
(* the sanitizers watch the real code doing it.                                *)
EXTENDS MC

Is == IF Thorough THEN <<2, 3, 4, 9, 10, 24>> ELSE <<2, 3, 9, 24>>
Os == IF Thorough THEN <<4, 5, 6, 8, 9, 11>> ELSE <<4, 6, 11>>
Ps == IF Thorough THEN <<2, 3, 4, 8, 9>> ELSE <<2, 3, 8>>
Name(n) == [i \in 1..n |-> 97 + (i % 3)]
NLs == IF Thorough THEN {-2, -1, 0, 1, 4} ELSE {-2, -1, 1}
Cases == {c \in [i : 1..Len(Is), o : 1..Len(Os), p : 1..Len(Ps), n : NLs, v : {0, 1}] :
            /\ Ps[c.p] + c.n >= 1
            /\ Thorough \/ c.v = (c.i + c.o + c.p) % 2}
CaseSeq == SetToSeq(Cases)
NameOf(c) == Name(Ps[c.p] + c.n)

sWorlds == [k \in 1..Len(CaseSeq) |->
  LET c == CaseSeq[k]
      nm == NameOf(c)
      fits == Len(nm) + 2 <= Ps[c.p]
  IN World(c.v, Is[c.i], Os[c.o], Ps[c.p], B("h"), 1,
           <<F(nm, <<B("described at some length")>>, <<B("help")>>, 1, 1, 1, B("0123456789")), F(nm \o B("b"), <<<<>>>>, <<>>, 1, 1, 1, <<>>)>>,
           <<<<1, 2>>, <<2>>>>,
           <<MountOp(1, RootPath, 1)>> \o Opt(fits, MountOp(2, RootPath \o nm, 2)) \o Opt(fits, Api1("cd", nm)) \o <<CAddOp(3, 2), GoOn>>)]
sDepth == 1
Texts(nm) == {nm, B("ls"), B("ls /"), B("ls ") \o nm, B("help"), B("help ") \o nm, B("cd ") \o nm, B("cd ..") , B("cat ") \o nm, B("cat /") \o nm,
              B("xxd ") \o nm, B("xxd /") \o nm, B("echo 12 > ") \o nm, B("echo \\x41\\x4"), B("pwd"), B("../") \o nm, B("\"") \o nm \o B("\\"), nm \o B("/") \o nm,
              B("a b c d e f g h i j k"), B("\"\" \"\" \"\" \"\" \"\"")}
sOps(i, s, h) ==
  LET nm == NameOf(CaseSeq[i])
  IN {Typ(x \o <<CR>>) : x \in Texts(nm)} \cup {Typ(<<TAB>>), Typ(SubSeq(nm, 1, 1) \o <<TAB, TAB, CR>>), Typ(nm \o <<TAB, TAB, CR>>), Typ(B("ls ") \o nm \o <<TAB>>)}
sEdges == FALSE
sAbs(s, h) == h
sSuffix(i) == <<Typ(<<ETX>>), Api1("find", NameOf(CaseSeq[i])), PrintfOp(1, B("a formatted message")), GoOn, Typ(B("ls") \o <<CR>>)>>
sInv(w, s, h) == Idle(s) /\ Len(s.sh.line) < w.isz
sStep(w, s, op, t) == \A i \in 1..Len(t.calls) : t.calls[i].c \in {"hook", "exec", "get", "set"}
=============================================================================
