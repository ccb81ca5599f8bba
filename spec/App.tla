-------------------------------- MODULE App ---------------------------------
(* The closed system: a shell, the application around it and the I/O driver.  *)
(* The application owns virtual files with contents (store), and for each      *)
(* callback it may have planned API calls (blk).  The driver delivers input    *)
(* and accepts output.  What the user and the application saw is kept in out   *)
(* (bytes written), calls (callbacks received) and res (API results).          *)
EXTENDS Shell, TLC

\* an operation of the environment, all with the same fields
O(k, d, n, g, e) == [k |-> k, d |-> d, n |-> n, g |-> g, e |-> e]
Typ(d)       == O("type", d, 0, 0, <<>>)          \* keystrokes, then run to idle
Raw(d)       == O("raw", d, 0, 0, <<>>)           \* keystrokes waiting at the interface
GoOn         == O("go", <<>>, 0, 0, <<>>)         \* run to idle
Acc(n)       == O("acc", <<>>, n, 0, <<>>)        \* run until n more bytes are accepted
Api0(k)      == O(k, <<>>, 0, 0, <<>>)
Api1(k, d)   == O(k, d, 0, 0, <<>>)
MountOp(n, p, g) == O("mount", p, n, g, <<>>)
CAddOp(n, g) == O("cadd", <<>>, n, g, <<>>)
CRemOp(n)    == O("crem", <<>>, n, 0, <<>>)
SaveOp(k)    == O("save", <<>>, k, 0, <<>>)
RestoreOp(k) == O("restore", <<>>, k, 0, <<>>)
StatusOp(c)  == O("status", <<>>, c, 0, <<>>)
PrintfOp(kind, d) == O("printf", d, kind, 0, <<>>)
Block(kind, f, ops) == O("block", kind, f, 0, ops)  \* kind: hook exec get set as bytes
Content(f, d) == O("content", d, f, 0, <<>>)
WPat(d)      == O("wpat", d, 0, 0, <<>>)
RPat(d)      == O("rpat", d, 0, 0, <<>>)

Line(s)      == Typ(B(s) \o <<CR>>)

\* a file as a world describes it: name, description, help, flags, content;
\* x = 2 means executable with a process callback;
\* texts are sequences of at most one byte string
F(n, d, h, x, g, s, c) == [n |-> n, d |-> d, h |-> h, x |-> x, g |-> g, s |-> s, c |-> c]

World(v, isz, osz, pmax, host, hook, fl, gr, su) ==
  [v |-> v, isz |-> isz, osz |-> osz, pmax |-> pmax, host |-> host, hook |-> hook, fl |-> fl, gr |-> gr, su |-> su]

FileOf(w, i) ==
  LET f == w.fl[i]
  IN [id |-> i, n |-> f.n, hd |-> Len(f.d), d |-> IF f.d = <<>> THEN <<>> ELSE f.d[1],
      hh |-> Len(f.h), h |-> IF f.h = <<>> THEN <<>> ELSE f.h[1], x |-> IF f.x > 0 THEN 1 ELSE 0, g |-> f.g, s |-> f.s,
      p |-> IF f.x = 2 THEN 1 ELSE 0, k |-> "app"]

GroupOf(w, g) == [i \in 1..Len(w.gr[g]) |-> FileOf(w, w.gr[g][i])]

\* ----------------------------------------------------------- the application
\* an API call at this very moment
Call(w, st, op) ==
  LET s == st.sh
      to(x, r) == [st EXCEPT !.sh = x, !.res = Append(@, r)]
  IN CASE op.k = "print"  -> to(ApiPrint(s, op.d), 0)
       [] op.k = "printo" -> to(ApiPrintBuf(s, op.d), 0)
       [] op.k = "pnnl"   -> to(ApiPrintNnl(s, op.d), 0)
       [] op.k = "pnnlo"  -> to(ApiFlush(s, op.d), 0)
       [] op.k = "flush"  -> to(ApiFlush(s, op.d), 0)
       [] op.k = "printf" -> to(ApiPrintf(s, op.d), 0)
       [] op.k = "printfe" -> to(ApiPrintfErr(s, op.d), 0)
       [] op.k = "ps" -> to(ApiProcess(s), 0)
       [] op.k = "pw" -> to(ApiWriteOn(s, op.d), 0)
       [] op.k = "status" -> to(ApiStatus(s, op.n), 0)
       [] op.k = "reset"  -> to(ApiReset(s), 0)
       [] op.k = "mount"  -> to(Mount(s, op.n, op.d, GroupOf(w, op.g)), MountRes(s, op.d))
       [] op.k = "umount" -> to(Unmount(s, op.d), UnmountRes(s, op.d))
       [] op.k = "cd"     -> to(SetDir(s, op.d), SetDirRes(s, op.d))
       [] op.k = "cadd"   -> to(AddCmds(s, op.n, GroupOf(w, op.g)), 0)
       [] op.k = "crem"   -> to(RemCmds(s, op.n), RemCmdsRes(s, op.n))
       [] op.k = "find"   -> to(s, FindFile(s, op.d).id)
       [] op.k = "node"   -> to(s, Dir(s, op.d).id)
       [] op.k = "deinit" -> to(Deinit(s), 0)
       [] op.k = "reinit" -> to(Fresh(w.v, w.isz, w.osz, w.pmax, w.host, w.hook), 0)
       [] op.k = "save"   -> [st EXCEPT !.mem = (op.n :> [sh |-> s, store |-> st.store]) @@ @]
       [] op.k = "restore" -> [st EXCEPT !.sh = st.mem[op.n].sh, !.store = st.mem[op.n].store]
       [] op.k = "content" -> [st EXCEPT !.store[op.n] = op.d]
       [] op.k \in {"wpat", "rpat"} -> st

Kinds == [hook |-> B("hook"), exec |-> B("exec"), get |-> B("get"), set |-> B("set"), proc |-> B("proc")]

\* the planned calls of one invocation of a callback
Invoke(w, st, kind, f) ==
  LET S == {i \in 1..Len(st.blk) : st.blk[i].d = kind /\ st.blk[i].n = f}
  IN IF S = {} THEN st
     ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j
          IN FoldLeft(LAMBDA acc, op : Call(w, acc, op),
                      [st EXCEPT !.blk = RemoveAt(@, i)], st.blk[i].e)

Seen(st, c, f, a, d) == [st EXCEPT !.calls = Append(@, [c |-> c, f |-> f, a |-> a, d |-> d])]

CallbackDue(s) == s.live /\ s.ph \in {"callhook", "callexec", "callget", "callset", "callproc"}

Callback(w, st) ==
  LET s == st.sh
      f == s.f.id
  IN CASE s.ph = "callhook" ->
            LET t == Invoke(w, [Seen(st, "hook", 0, s.args, <<>>) EXCEPT !.sh = Hook(s)], Kinds.hook, 0)
            IN [t EXCEPT !.sh = Return(t.sh)]
       [] s.ph = "callexec" ->
            LET t == Invoke(w, [Seen(st, "exec", f, s.args, <<>>) EXCEPT !.sh = Exec(s)], Kinds.exec, f)
            IN [t EXCEPT !.sh = Return(t.sh)]
       [] s.ph = "callproc" ->
            LET c == [Seen(st, "proc", f, <<>>, <<>>) EXCEPT !.sh = Proc(s)]
                t == IF \E i \in 1..Len(st.blk) : st.blk[i].d = Kinds.proc /\ st.blk[i].n = f
                     THEN Invoke(w, c, Kinds.proc, f)
                     ELSE Call(w, c, Api1("print", <<>>))       \* nothing planned: it ends
            IN [t EXCEPT !.sh = Return(t.sh)]
       [] s.ph = "callset" ->
            LET t == Invoke(w, [Seen(st, "set", f, <<>>, s.dat) EXCEPT !.sh = Set(s), !.store[f] = s.dat], Kinds.set, f)
            IN [t EXCEPT !.sh = Return(t.sh)]
       [] s.ph = "callget" ->
            LET t == Invoke(w, [Seen(st, "get", f, <<>>, <<>>) EXCEPT !.sh = Get(s)], Kinds.get, f)
            IN [t EXCEPT !.sh = ReturnData(t.sh, t.store[f])]

\* ------------------------------------------------------------- the I/O driver
\* run until n bytes are accepted (n < 0: no limit) or nothing is left to do
RECURSIVE Drive(_, _, _)
Drive(w, st0, n) ==
  LET s  == Settle(st0.sh)
      st == [st0 EXCEPT !.sh = s]
  IN IF n = 0 THEN st0
     ELSE IF CallbackDue(s) THEN Drive(w, Callback(w, st), n)
     ELSE IF CanWrite(s)
     THEN LET left == Len(s.cur.d) - s.pos
              m == IF n < 0 \/ left < n THEN left ELSE n
          IN Drive(w, [st EXCEPT !.sh = WriteN(s, m), !.out = @ \o SubSeq(s.cur.d, s.pos + 1, s.pos + m)],
                   IF n < 0 THEN n ELSE n - m)
     ELSE IF CanRead(s) /\ st.inq # <<>>
     THEN Drive(w, [st EXCEPT !.sh = ReadByte(s, Head(st.inq)), !.inq = Tail(@)], n)
     ELSE st

\* what the terminal's current row got since the last prompt
PromptText(sh) ==
  FoldLeft(LAMBDA acc, seg : acc \o seg.d, <<>>, PromptSegs(sh))

\* the part of d after the last occurrence of p; <<256>> if there is none
AfterLast(d, p) ==
  LET S == {i \in 0..(Len(d) - Len(p)) : SubSeq(d, i + 1, i + Len(p)) = p}
  IN IF S = {} THEN <<256>> ELSE Drop(d, (CHOOSE i \in S : \A j \in S : j <= i) + Len(p))

Row(st) ==
  LET x == AfterLast(st.out, PromptText(st.sh))
  IN [st EXCEPT !.row = IF x = <<256>> THEN @ \o st.out ELSE x]

\* one operation of the environment
Apply(w, st, op) ==
  LET c == [st EXCEPT !.out = <<>>, !.calls = <<>>, !.res = <<>>]
  IN CASE op.k = "type"  -> Row(Drive(w, [c EXCEPT !.inq = @ \o op.d], -1))
       [] op.k = "raw"   -> [c EXCEPT !.inq = @ \o op.d]
       [] op.k = "go"    -> Row(Drive(w, c, -1))
       [] op.k = "acc"   -> Row(Drive(w, c, op.n))
       [] op.k = "block" -> [c EXCEPT !.blk = Append(@, op)]
       [] OTHER          -> Call(w, c, op)

Start(w) ==
  FoldLeft(LAMBDA acc, op : Apply(w, acc, op),
           [sh |-> Fresh(w.v, w.isz, w.osz, w.pmax, w.host, w.hook), store |-> [i \in 1..Len(w.fl) |-> w.fl[i].c],
            inq |-> <<>>, out |-> <<>>, calls |-> <<>>, res |-> <<>>, blk |-> <<>>, row |-> <<>>, mem |-> <<>>],
           w.su)

Idle(st) == CanRead(Settle(st.sh)) /\ st.inq = <<>>

\* --------------------------------------------------- what the user looks at
\* what an ordinary terminal shows of a row written from its first column on
Render(bytes) ==
  LET step(t, ch) ==
        CASE ch = BS -> [t EXCEPT !.c = IF @ > 0 THEN @ - 1 ELSE 0]
          [] OTHER   -> [t EXCEPT !.r = SubSeq(@, 1, t.c) \o <<ch>> \o Drop(@, t.c + 1), !.c = @ + 1]
      e == FoldLeft(step, [r |-> <<>>, c |-> 0], bytes)
      blankAfter(r, c) == \A i \in (c + 1)..Len(r) : r[i] = SP
  IN IF blankAfter(e.r, e.c) THEN SubSeq(e.r, 1, e.c) ELSE <<256>>

Occurrences(d, p) == Cardinality({i \in 0..(Len(d) - Len(p)) : SubSeq(d, i + 1, i + Len(p)) = p})
EndsWith(d, p) == Len(p) <= Len(d) /\ SubSeq(d, Len(d) - Len(p) + 1, Len(d)) = p
=============================================================================
