-------------------------------- MODULE S14 ---------------------------------
(* Every command ends: all command lines up to three words over a small        *)
(* vocabulary, in every configuration, with messages printed from callbacks,   *)
(* end with the shell waiting for input - and the session can go on.           *)
(* (S13b adds progress under fairness for single bytes.)                       *)
EXTENDS MC

Fl == <<F(B("x"), <<B("dx")>>, <<B("help")>>, 1, 1, 1, B("ab") \o <<0, 255>>), F(B("e"), <<>>, <<>>, 0, 1, 1, <<>>), F(B("n"), <<>>, <<<<>>>>, 0, 0, 0, <<>>)>>
sWorlds == [i \in 1..(IF Thorough THEN 10 ELSE 5) |->
  World((i - 1) % 5, 32, IF i > 5 THEN 8 ELSE 32, 32, B("h"), i % 2, Fl, <<<<1, 2, 3>>, <<2>>>>,
        <<MountOp(1, RootPath, 1), MountOp(2, B("/d"), 2), GoOn>>)]
Words == IF Thorough THEN <<"help", "ls", "cd", "pwd", "cat", "xxd", "echo", "x", "e", "n", "d", "q", ">", "..", "/d/e">>
                     ELSE <<"help", "ls", "cd", "pwd", "cat", "xxd", "echo", "x", "n", "d", "q", ">", "/d/e">>
NW == Len(Words)
Ends == {<<CR>>, <<TAB, CR>>}
Msgs == {<<Api1("print", B("msg"))>>, <<PrintfOp(1, B("fmt"))>>, <<StatusOp(0)>>, <<Api1("flush", B("fl")), PrintfOp(1, B("fm"))>>}
Text(ws) == ConcatAll([k \in 1..Len(ws) |-> IF k = 1 THEN B(ws[k]) ELSE <<SP>> \o B(ws[k])])
Vocab == ToSet(Words)
Interest(i) == {<<a>> : a \in Vocab} \cup {<<a, b>> : a \in Vocab, b \in Vocab}
               \cup {<<a, b, c>> : a \in {"cat", "echo", "help", "x"}, b \in {"x", "q", "n"}, c \in {">", "x", "d"}}
               \cup {<<"echo", a, ">", b>> : a \in {"x"}, b \in Vocab}
sDepth == 2
sOps(i, s, h) ==
  IF h = <<>> THEN
     {Typ(Text(ws) \o <<CR>>) : ws \in Interest(i)}
     \cup {Block(B(k), f, m) : k \in {"exec", "get", "set"}, f \in {1, 2}, m \in Msgs}
     \cup (IF i % 2 = 1 THEN {Block(B("hook"), 0, m) : m \in Msgs} ELSE {})
  ELSE IF h[1].k = "block" THEN {Line("x"), Line("cat x e x"), Line("xxd x"), Line("echo 12 > e"), Line("echo 12 > x"), Line("ls"), Line("q")}
  ELSE {Line("x")}
sEdges == FALSE
sAbs(s, h) == h
sSuffix(i) == <<Typ(<<CR>>), Line("x 1")>>
sInv(w, s, h) == Idle(s)
\* a line ends with a prompt, always, and with one prompt only unless a message came in between
sStep(w, s, op, t) ==
  op.k = "type" => EndsWith(t.out, PromptText(t.sh)) /\ (s.blk = <<>> => Occurrences(t.out, B("[h ")) = 1)
                   \* '>' at the end of the line could not be a prompt
=============================================================================
