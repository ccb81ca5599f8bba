------------------------------- MODULE Shell --------------------------------
(* One shell instance as its user, its application and its I/O driver see it. *)
(*                                                                            *)
(* The state is one record; every transition is an operator from state to     *)
(* state, and the named actions at the end lift them to TLA+ actions.  There   *)
(* are three kinds of transition:                                              *)
(*   - the environment at the I/O interface: a byte read, a byte accepted, a   *)
(*     byte refused, a poll that finds no input;                               *)
(*   - callbacks into the application (command hook, file exec, get, set) and  *)
(*     their returns;                                                          *)
(*   - calls of the public API by the application, from its main loop or from  *)
(*     inside a callback;                                                      *)
(*   - Tau: everything the shell does between two observable interactions.     *)
(* At any moment at most one byte is on offer at the output (the next byte of  *)
(* cur), or the shell waits for input, or for a callback to return, or Tau is  *)
(* enabled; the shell itself has no choices.                                   *)
EXTENDS UshPath, UshArgs, UshConfig, FiniteSets

NoFile == [id |-> 0, n |-> <<>>, hd |-> 0, d |-> <<>>, hh |-> 0, h |-> <<>>, x |-> 0, g |-> 0, s |-> 0, p |-> 0, k |-> "none"]
NoDir  == [id |-> 0, p |-> RootPath, f |-> <<>>]

Seg(d)  == [d |-> d, s |-> 0]      \* text that lives outside the output buffer
OSeg(d) == [d |-> d, s |-> 1]      \* text prepared in the output buffer

(* Fields of the state:                                                       *)
(*   v isz osz pmax host hook   the configuration                              *)
(*   mode    what Tau or the environment does next:                            *)
(*           write  bytes of cur from pos on are to be accepted, then nxt      *)
(*           q      the segments of q are to be written, then qn               *)
(*           reset rprompt prep rch parse comp cat                             *)
(*           process  the running command goes on in its process callback      *)
(*   line esc plin              line editor; plin is the line handed over      *)
(*   fs      mounted directories, newest first: id, path, files                *)
(*   cwd     the current directory (an entry of fs, unless root was removed)   *)
(*   cmds    command groups, newest first                                      *)
(*   args idx                   arguments of the running command               *)
(*   ph f dat                   callback in progress: none callhook inhook     *)
(*           lookup callexec inexec callget inget callset inset callproc inproc*)
(*   pf                         the file whose process callback is called      *)
Fresh(v, isz, osz, pmax, host, hook) ==
  [v |-> v, isz |-> isz, osz |-> osz, pmax |-> pmax, host |-> host, hook |-> hook,
   mode |-> "write", cur |-> Seg(Welcome), pos |-> 0, nxt |-> "rprompt", q |-> <<>>, qn |-> "rch",
   line |-> <<>>, esc |-> 0, plin |-> <<>>,
   fs |-> <<>>, cwd |-> NoDir,
   cmds |-> IF Config[v].hascmds THEN <<[id |-> 0, f |-> Config[v].cmds]>> ELSE <<>>,
   args |-> <<>>, idx |-> 0, ph |-> "none", f |-> NoFile, pf |-> NoFile, dat |-> <<>>, live |-> TRUE]

C(sh) == Config[sh.v]

\* ------------------------------------------------------------ output helpers
StartWrite(sh, seg, nxt) == [sh EXCEPT !.mode = "write", !.cur = seg, !.pos = 0, !.nxt = nxt]
StartSeq(sh, segs, qn)   == [sh EXCEPT !.mode = "q", !.q = segs, !.qn = qn]
Status(sh, code)         == StartWrite(sh, Seg(C(sh).status[code + 1]), "reset")

PromptSegs(sh) ==
  <<Seg(C(sh).style.magenta \o <<91>>), Seg(sh.host), Seg(<<SP>>), Seg(LastName(sh.cwd.p)),
    Seg(<<93, 36, SP>> \o C(sh).style.reset)>>

\* --------------------------------------------------- directories and commands
\* a path that does not fit the configured maximum names nothing
TooLong(sh, p) == Len(p) + 1 > sh.pmax

Dir(sh, p) ==
  LET key == IF p = <<>> THEN RootPath ELSE p
      S == {i \in 1..Len(sh.fs) : sh.fs[i].p = key}
  IN IF S = {} \/ TooLong(sh, p) THEN NoDir ELSE sh.fs[CHOOSE i \in S : TRUE]

ParentDir(sh, p) ==
  LET pp == ParentPath(p) IN IF pp = <<>> \/ TooLong(sh, p) THEN NoDir ELSE Dir(sh, pp)

Children(sh, p) == SelectSeq(sh.fs, LAMBDA e : e.p # RootPath /\ ParentPath(e.p) = p)

Abs(sh, name) == Resolve(sh.cwd.p, name, sh.pmax)

CmdFiles(sh) == FoldLeft(LAMBDA acc, g : acc \o g.f, <<>>, sh.cmds)

First(fs, Ok(_)) ==
  LET S == {i \in 1..Len(fs) : Ok(fs[i])}
  IN IF S = {} THEN NoFile ELSE fs[CHOOSE i \in S : \A j \in S : i <= j]

\* what a name on the command line means
FindFile(sh, name) ==
  LET c == First(CmdFiles(sh), LAMBDA f : f.n = name)
  IN IF c.id # 0 THEN c
     ELSE LET a == Abs(sh, name)
              d == ParentDir(sh, a)
          IN IF d.id = 0 THEN NoFile ELSE First(d.f, LAMBDA f : Join(d.p, f.n) = a)

\* ------------------------------------------------------------ the line editor
ReadByte(sh, ch) ==
  CASE ch = ETX -> StartWrite(sh, Seg(B("^C")), "reset")
    [] ch = BS \/ ch = DEL ->
         IF sh.line = <<>> THEN sh
         ELSE StartWrite([sh EXCEPT !.line = SubSeq(@, 1, Len(@) - 1)], OSeg(<<BS, SP, BS>>), "rch")
    [] ch = TAB -> IF C(sh).comp THEN [sh EXCEPT !.mode = "comp"] ELSE sh
    [] ch = ESC -> [sh EXCEPT !.esc = 1]
    [] OTHER ->
         IF sh.esc = 1 THEN [sh EXCEPT !.esc = IF ch = 91 \/ ch = 79 THEN 2 ELSE 0]
         ELSE IF sh.esc = 2 THEN [sh EXCEPT !.esc = 0]
         ELSE LET full == Len(sh.line) + 1 >= sh.isz
                  \* filling the last place of the buffer restarts the line
                  kept == IF full THEN <<>> ELSE Append(sh.line, ch)
                  plin == IF full /\ sh.line # <<>> THEN <<0>> \o Tail(sh.line) ELSE sh.line
                  echo == IF ch = CR THEN CRLF ELSE IF ch = 0 THEN <<>> ELSE <<ch>>
              IN IF ch = CR \/ ch = LF
                 THEN StartWrite([sh EXCEPT !.line = kept, !.plin = plin], OSeg(echo), "parse")
                 ELSE StartWrite([sh EXCEPT !.line = kept], OSeg(echo), "rch")

\* -------------------------------------------------------------- completion
LastArg(line) == Drop(line, LastIdx(line, SP))

Candidates(sh, in) ==
  LET own == [i \in 1..Len(sh.cwd.f) |-> sh.cwd.f[i].n]
      cf  == CmdFiles(sh)
      cmd == [i \in 1..Len(cf) |-> cf[i].n]
      at  == IF in = <<>> THEN sh.cwd.p
             ELSE LET d == ParentDir(sh, Abs(sh, in)) IN IF d.id = 0 THEN sh.cwd.p ELSE d.p
      ch  == Children(sh, at)
      sub == [i \in 1..Len(ch) |-> LastName(ch[i].p)]
  IN SelectSeq(cmd \o own \o sub, LAMBDA n : StartsWith(n, in))

\* Several candidates: the word grows letter by letter as long as none of them
\* is lost, which is their longest common prefix.  (A growing "." or ".." stops
\* being a path, and with it the directory concerned changes.)
RECURSIVE Grow(_, _, _)
Grow(sh, pre, in) ==
  LET cs == Candidates(sh, in)
      nm == cs[Len(cs)]
      t  == Append(in, nm[Len(in) + 1])
  IN IF Len(pre) + Len(in) + 1 >= sh.isz \/ Len(in) >= Len(nm) THEN in
     ELSE IF Len(Candidates(sh, t)) < Len(cs) THEN in ELSE Grow(sh, pre, t)

Complete(sh) ==
  LET line == CStr(sh.line)
      in   == LastArg(line)
      pre  == SubSeq(line, 1, Len(line) - Len(in))
      cs   == Candidates(sh, in)
      s1   == [sh EXCEPT !.line = line]
      to(t) == LET full == Take(pre \o t, sh.isz - 1)
               IN StartWrite([sh EXCEPT !.line = full], Seg(Drop(full, Len(line))), "rch")
  IN IF Len(cs) = 0 THEN [s1 EXCEPT !.mode = "rch"]
     ELSE IF Len(cs) = 1 THEN to(cs[1])
     ELSE LET grown == Grow(sh, pre, in)
          IN IF grown # in THEN to(grown)
             ELSE StartSeq(s1, <<Seg(CRLF)>>
                               \o FoldLeft(LAMBDA acc, n : acc \o <<Seg(n), Seg(CRLF)>>, <<>>, cs)
                               \o PromptSegs(sh) \o <<Seg(line)>>, "rch")

\* ------------------------------------------------------- built-in commands
Fit(sh, d) == Take(d, sh.osz - 1)

NameRow(sh, f) ==
  IF f.hd = 1
  THEN <<OSeg(Fit(sh, PadRight(f.n, C(sh).align) \o <<SP>> \o C(sh).style.yellow \o B("- "))),
         Seg(f.d), Seg(C(sh).style.reset \o CRLF)>>
  ELSE <<OSeg(Fit(sh, f.n)), Seg(CRLF)>>

Flag(b, c) == IF b = 1 THEN c ELSE 45

FileRow(sh, f) ==
  <<OSeg(Fit(sh, <<45, Flag(f.g, 114), Flag(f.s, 119), Flag(f.x, 120), Flag(f.hh, 104), SP>>))>> \o NameRow(sh, f)

DotRow(sh, name) == B("d---- ") \o C(sh).style.green \o name \o C(sh).style.reset \o CRLF

DirRow(sh, e) == <<Seg(B("d---- ") \o C(sh).style.green), Seg(LastName(e.p)), Seg(<<SLASH>> \o C(sh).style.reset \o CRLF)>>

Rows(sh, es, Row(_, _)) == FoldLeft(LAMBDA acc, e : acc \o Row(sh, e), <<>>, es)

Listing(sh, e) ==
  <<Seg(DotRow(sh, <<DOT>>) \o (IF e.p = RootPath THEN <<>> ELSE DotRow(sh, DotDot)))>>
  \o Rows(sh, Children(sh, e.p), DirRow)
  \o Rows(sh, e.f, FileRow)

DumpRow(sh, data, off) ==
  LET n == C(sh).cols
      at(i) == off + i
      hex == FoldLeft(LAMBDA acc, i : acc \o (IF at(i) <= Len(data) THEN Hex2(data[at(i)]) \o <<SP>> ELSE Spaces(3)),
                      <<>>, [i \in 1..n |-> i]) \o <<SP>>
      txt == [i \in 1..n |-> IF at(i) > Len(data) THEN SP
                             ELSE IF IsPrintable(data[at(i)]) THEN data[at(i)] ELSE DOT]
  IN <<OSeg(Fit(sh, HexN(off, 8) \o B(": "))), OSeg(Fit(sh, hex)), OSeg(Fit(sh, txt)), Seg(CRLF)>>

Dump(sh, data) ==
  LET n == C(sh).cols
      rows == IF data = <<>> THEN 1 ELSE (Len(data) + n - 1) \div n
  IN FoldLeft(LAMBDA acc, r : acc \o DumpRow(sh, data, (r - 1) * n), <<>>, [r \in 1..rows |-> r])

RECURSIVE CatCheck(_, _, _)
CatCheck(sh, args, i) ==
  IF i > Len(args) THEN 0
  ELSE LET f == FindFile(sh, args[i])
       IN IF f.id = 0 THEN 11 ELSE IF f.g = 0 THEN 9 ELSE CatCheck(sh, args, i + 1)

RunHelp(sh, a) ==
  CASE Len(a) = 1 -> StartSeq(sh, Rows(sh, CmdFiles(sh), NameRow), "rprompt")
    [] Len(a) = 2 -> LET f == FindFile(sh, a[2])
                     IN IF f.id = 0 THEN Status(sh, 11)
                        ELSE IF f.hh = 0 THEN Status(sh, 10)
                        ELSE StartWrite(sh, Seg(f.h), "rprompt")
    [] OTHER -> Status(sh, 6)

RunLs(sh, a) ==
  CASE Len(a) = 1 -> StartSeq(sh, Listing(sh, sh.cwd), "rprompt")
    [] Len(a) = 2 -> LET d == Dir(sh, Abs(sh, a[2]))
                     IN IF d.id = 0 THEN Status(sh, 1) ELSE StartSeq(sh, Listing(sh, d), "rprompt")
    [] OTHER -> Status(sh, 6)

\* change directory: the state, and the status code
ChDirTo(sh, p) == IF p = <<>> THEN NoDir ELSE Dir(sh, Abs(sh, p))

RunCd(sh, a) ==
  IF Len(a) # 2 THEN Status(sh, 6)
  ELSE LET d == ChDirTo(sh, a[2]) IN IF d.id = 0 THEN Status(sh, 1) ELSE [sh EXCEPT !.cwd = d]

RunPwd(sh, a) ==
  IF Len(a) # 1 THEN Status(sh, 6) ELSE StartWrite(sh, Seg(sh.cwd.p), "reset")

RunCat(sh, a) ==
  IF Len(a) < 2 THEN Status(sh, 6)
  ELSE LET c == CatCheck(sh, a, 2)
       IN IF c # 0 THEN Status(sh, c) ELSE [sh EXCEPT !.mode = "cat", !.idx = 2]

RunXxd(sh, a) ==
  IF Len(a) # 2 THEN Status(sh, 6)
  ELSE LET f == FindFile(sh, a[2])
       IN IF f.id = 0 THEN Status(sh, 11)
          ELSE IF f.g = 0 THEN Status(sh, 9)
          ELSE [sh EXCEPT !.ph = "callget", !.f = f, !.dat = B("xxd")]

RunEcho(sh, a) ==
  CASE Len(a) = 1 -> [sh EXCEPT !.mode = "reset"]
    [] Len(a) = 2 -> StartWrite(sh, Seg(CStr(Decode(a[2]))), "reset")
    [] Len(a) = 4 -> IF a[3] # <<62>> THEN Status(sh, 6)
                     ELSE LET f == FindFile(sh, a[4])
                          IN IF f.id = 0 THEN Status(sh, 11)
                             ELSE IF f.s = 0 THEN Status(sh, 8)
                             ELSE [sh EXCEPT !.ph = "callset", !.f = f, !.dat = Decode(a[2])]
    [] OTHER -> Status(sh, 6)

Builtin(sh, k, a) ==
  CASE k = "help" -> RunHelp(sh, a)
    [] k = "ls"   -> RunLs(sh, a)
    [] k = "cd"   -> RunCd(sh, a)
    [] k = "pwd"  -> RunPwd(sh, a)
    [] k = "cat"  -> RunCat(sh, a)
    [] k = "xxd"  -> RunXxd(sh, a)
    [] k = "echo" -> RunEcho(sh, a)

\* ---------------------------------------------------------------- dispatch
Parse(sh) ==
  LET a == Args(sh.plin)
      s == [sh EXCEPT !.mode = "rprompt", !.args = a]
  IN IF a = <<>> THEN s ELSE [s EXCEPT !.ph = IF sh.hook = 1 THEN "callhook" ELSE "lookup"]

Lookup(sh) ==
  LET f == FindFile(sh, sh.args[1])
      s == [sh EXCEPT !.ph = "none"]
  IN IF f.id = 0 THEN Status(s, 5)
     ELSE IF f.x = 0 THEN Status(s, 7)
     ELSE IF f.k = "app" THEN [s EXCEPT !.ph = "callexec", !.f = f]
     ELSE Builtin(s, f.k, sh.args)

CatNext(sh) ==
  IF sh.idx > Len(sh.args) THEN [sh EXCEPT !.mode = "rprompt"]
  ELSE LET f == FindFile(sh, sh.args[sh.idx])
       IN IF f.id = 0 \/ f.g = 0 THEN Status(sh, 11)
          ELSE [sh EXCEPT !.ph = "callget", !.f = f, !.dat = B("cat"), !.idx = @ + 1]

\* --------------------------------------------------------------------- Tau
Offering(sh) == sh.mode = "write" /\ sh.pos < Len(sh.cur.d)

TauEnabled(sh) ==
  /\ sh.live /\ sh.cwd.id # 0
  /\ \/ sh.ph = "lookup"
     \/ sh.ph = "none" /\ sh.mode # "rch" /\ ~Offering(sh)

Tau(sh) ==
  IF sh.ph = "lookup" THEN Lookup(sh)
  ELSE CASE sh.mode = "write"   -> [sh EXCEPT !.mode = sh.nxt]
         [] sh.mode = "q"       -> IF sh.q = <<>> THEN [sh EXCEPT !.mode = sh.qn]
                                   ELSE StartWrite([sh EXCEPT !.q = Tail(@)], Head(sh.q), "q")
         [] sh.mode = "reset"   -> StartWrite(sh, Seg(CRLF), "rprompt")
         [] sh.mode = "rprompt" -> StartSeq(sh, PromptSegs(sh), "prep")
         [] sh.mode = "prep"    -> [sh EXCEPT !.line = <<>>, !.esc = 0, !.mode = "rch"]
         [] sh.mode = "parse"   -> Parse(sh)
         [] sh.mode = "comp"    -> Complete(sh)
         [] sh.mode = "cat"     -> CatNext(sh)
         [] sh.mode = "process" -> IF sh.pf.p = 1 THEN [sh EXCEPT !.ph = "callproc", !.f = sh.pf] ELSE [sh EXCEPT !.mode = "reset"]

\* ------------------------------------------------------------ I/O interface
CanRead(sh) == sh.live /\ sh.cwd.id # 0 /\ sh.ph = "none" /\ sh.mode = "rch"
CanWrite(sh) == sh.live /\ sh.cwd.id # 0 /\ sh.ph = "none" /\ Offering(sh)
NextByte(sh) == sh.cur.d[sh.pos + 1]
WriteN(sh, n) == [sh EXCEPT !.pos = @ + n]

\* --------------------------------------------------------------- callbacks
CanHook(sh) == sh.ph = "callhook"
Hook(sh)    == [sh EXCEPT !.ph = "inhook"]
CanExec(sh) == sh.ph = "callexec"
Exec(sh)    == [sh EXCEPT !.ph = "inexec"]
CanGet(sh)  == sh.ph = "callget"
Get(sh)     == [sh EXCEPT !.ph = "inget"]
CanSet(sh)  == sh.ph = "callset"
Set(sh)     == [sh EXCEPT !.ph = "inset"]
CanProc(sh) == sh.ph = "callproc"
Proc(sh)    == [sh EXCEPT !.ph = "inproc"]

Return(sh) ==
  CASE sh.ph = "inhook" -> [sh EXCEPT !.ph = "lookup"]
    [] sh.ph = "inexec" -> [sh EXCEPT !.ph = "none"]
    [] sh.ph = "inset"  -> [sh EXCEPT !.ph = "none"]
    [] sh.ph = "inproc" -> [sh EXCEPT !.ph = "none"]

ReturnData(sh, data) ==
  IF sh.dat = B("xxd") THEN StartSeq([sh EXCEPT !.ph = "none"], Dump(sh, data), "rprompt")
  ELSE StartWrite([sh EXCEPT !.ph = "none"], Seg(data), "cat")

\* -------------------------------------------------------------- public API
\* the application may call in from its main loop or from one of its callbacks
CanCall(sh) == sh.live /\ sh.ph \in {"none", "inhook", "inexec", "inget", "inset", "inproc"}

ApiPrint(sh, d)     == StartWrite(sh, Seg(d), "reset")
ApiPrintBuf(sh, d)  == StartWrite(sh, OSeg(d), "reset")
ApiPrintNnl(sh, d)  == StartWrite(sh, Seg(d), "rprompt")
ApiFlush(sh, d)     == StartWrite(sh, OSeg(d), "rprompt")
ApiStatus(sh, c)    == Status(sh, c)
ApiReset(sh)        == StartWrite([sh EXCEPT !.cwd = Dir(sh, RootPath)], Seg(Welcome), "rprompt")

\* formatted text is collected in the output buffer as long as it is the one
\* being printed; what does not fit is cut and an error message takes the end
ApiPrintf(sh, txt) ==
  LET fresh == sh.cur.s = 0
      s0   == IF fresh THEN StartWrite(sh, OSeg(<<>>), "rprompt")
              ELSE [sh EXCEPT !.mode = "write", !.nxt = "rprompt"]
      old  == s0.cur.d
      have == CStr(old)
      room == sh.osz - Len(have)
  IN IF Len(txt) < room
     THEN IF txt = <<>> THEN s0 ELSE [s0 EXCEPT !.cur = OSeg(old \o txt)]
     ELSE LET full == have \o SubSeq(txt, 1, room - 1)
              keep == IF sh.osz > Len(OverflowMsg) + 1 THEN sh.osz - Len(OverflowMsg) - 1 ELSE 0
              msg  == Take(OverflowMsg, sh.osz - 1 - keep)
          IN [s0 EXCEPT !.cur = OSeg(SubSeq(full, 1, keep) \o msg \o <<0>>)]

\* formatting fails after txt: a notice follows, or takes the end
ApiPrintfErr(sh, txt) ==
  LET s0   == IF sh.cur.s = 0 THEN StartWrite(sh, OSeg(<<>>), "rprompt")
              ELSE [sh EXCEPT !.mode = "write", !.nxt = "rprompt"]
      old  == s0.cur.d
      have == CStr(old)
      got  == SubSeq(txt, 1, IF Len(txt) < sh.osz - Len(have) THEN Len(txt) ELSE sh.osz - Len(have) - 1)
      now  == have \o got
      need == Len(FormatMsg) + 1
      keep == IF sh.osz > need THEN sh.osz - need ELSE 0
  IN IF sh.osz - Len(now) >= need THEN [s0 EXCEPT !.cur = OSeg(old \o got \o FormatMsg)]
     ELSE [s0 EXCEPT !.cur = OSeg(SubSeq(now, 1, keep) \o Take(FormatMsg, sh.osz - 1 - keep) \o <<0>>)]

\* a command goes on in the process callback of its file: at once, or after
\* some more text
ApiProcess(sh)    == [sh EXCEPT !.mode = "process", !.pf = sh.f]
ApiWriteOn(sh, d) == StartWrite(sh, Seg(d), "process")

\* namespace operations: the new state and the status code
MountRes(sh, p) ==
  IF Dir(sh, p).id # 0 THEN 4
  ELSE IF ParentDir(sh, p).id # 0 \/ p = RootPath THEN 0
  ELSE 3

Mount(sh, id, p, files) ==
  LET e == [id |-> id, p |-> p, f |-> files]
      s == [sh EXCEPT !.fs = <<e>> \o @]
  IN IF MountRes(sh, p) # 0 THEN sh
     ELSE IF p = RootPath THEN [s EXCEPT !.cwd = e] ELSE s

UnmountRes(sh, p) ==
  LET d == Dir(sh, p)
  IN IF d.id = 0 \/ (d.p # RootPath /\ ParentDir(sh, p).id = 0) THEN 1
     ELSE IF Children(sh, d.p) # <<>> THEN 2
     ELSE 0

Unmount(sh, p) ==
  LET d == Dir(sh, p)
      s == [sh EXCEPT !.fs = SelectSeq(@, LAMBDA e : e.id # d.id)]
  IN IF UnmountRes(sh, p) # 0 THEN sh
     ELSE IF d.p # RootPath /\ sh.cwd.id = d.id THEN [s EXCEPT !.cwd = ParentDir(sh, p)]
     ELSE s

SetDirRes(sh, p) == IF ChDirTo(sh, p).id = 0 THEN 1 ELSE 0
SetDir(sh, p)    == IF ChDirTo(sh, p).id = 0 THEN sh ELSE [sh EXCEPT !.cwd = ChDirTo(sh, p)]

AddCmds(sh, id, files) == [sh EXCEPT !.cmds = <<[id |-> id, f |-> files]>> \o @]
HasCmds(sh, id) == \E i \in 1..Len(sh.cmds) : sh.cmds[i].id = id
RemCmdsRes(sh, id) == IF HasCmds(sh, id) THEN 0 ELSE 1
RemCmds(sh, id) == [sh EXCEPT !.cmds = SelectSeq(@, LAMBDA g : g.id # id)]

Deinit(sh) == [sh EXCEPT !.live = FALSE, !.fs = <<>>, !.cmds = <<>>, !.cwd = NoDir]

\* ------------------------------------------- composition of internal steps
RECURSIVE Settle(_)
Settle(sh) == IF TauEnabled(sh) THEN Settle(Tau(sh)) ELSE sh

\* all the states on the way: the points at which the main loop can call in
RECURSIVE Chain(_)
Chain(sh) == IF TauEnabled(sh) THEN {sh} \cup Chain(Tau(sh)) ELSE {sh}
=============================================================================
