------------------------------- MODULE Trace --------------------------------
(* Trace validation: is the recorded interaction of the real shell with its   *)
(* environment a behaviour of Shell?  The file holds many traces, each framed  *)
(* by a begin and an end event.  One event per state; internal steps of the    *)
(* specification are composed with the event that follows them.                *)
EXTENDS Shell, Json, TLC, TLCExt, IOUtils

TraceFile == IOEnv.USH_TRACE
T == ndJsonDeserialize(TraceFile)
N == Len(T)

VARIABLES sh, l,
          mem        \* what the application saved of the shell's memory, by number
vars == <<sh, l, mem>>

Dead == [live |-> FALSE, ph |-> "none"]

Init == sh = Dead /\ l = 1 /\ mem = <<>>

E == T[l]
Is(e) == E.e = e
Go(s) == sh' = s /\ l' = l + 1 /\ mem' = mem

Frame == (Is("begin") \/ Is("end")) /\ sh' = (IF Is("end") THEN Dead ELSE sh) /\ l' = l + 1 /\ mem' = <<>>

\* all that the shell knows is in the memory it was given: put back, it is as it was
Saved    == Is("save") /\ sh.live /\ sh' = sh /\ l' = l + 1 /\ mem' = (E.k :> sh) @@ mem
Restored == Is("restore") /\ E.k \in DOMAIN mem /\ sh' = mem[E.k] /\ l' = l + 1 /\ mem' = mem

Start == Is("init") /\ ~(sh.live /\ sh.ph # "none") /\ Go(Fresh(E.v, E.i, E.o, E.p, E.h, E.k))

\* ------------------------------------------------------------ I/O interface
RECURSIVE Accept(_, _)
Accept(s0, bytes) ==
  LET s == Settle(s0)
      left == Len(s.cur.d) - s.pos
      n == IF left < Len(bytes) THEN left ELSE Len(bytes)
  IN IF ~CanWrite(s) THEN [ok |-> FALSE, s |-> s]
     ELSE IF SubSeq(s.cur.d, s.pos + 1, s.pos + n) # SubSeq(bytes, 1, n) THEN [ok |-> FALSE, s |-> s]
     ELSE IF n = Len(bytes) THEN [ok |-> TRUE, s |-> WriteN(s, n)]
     ELSE Accept(WriteN(s, n), Drop(bytes, n))

Wrote   == Is("w") /\ sh.live /\ LET r == Accept(sh, E.d) IN r.ok /\ Go(r.s)
Refused == Is("wx") /\ sh.live /\ LET s == Settle(sh) IN CanWrite(s) /\ NextByte(s) = E.c /\ Go(s)
Got     == Is("r") /\ sh.live /\ LET s == Settle(sh) IN CanRead(s) /\ Go(ReadByte(s, E.c))
Polled  == Is("poll") /\ sh.live /\ LET s == Settle(sh) IN CanRead(s) /\ Go(s)
\* a service call that reports "nothing to do" without having asked for input
\* is honest only if input is indeed all that the shell can wait for
Idle    == Is("idle") /\ sh.live /\ CanRead(Settle(sh)) /\ Go(sh)

\* --------------------------------------------------------------- callbacks
Called ==
  /\ E.e \in {"hook", "exec", "get", "set", "proc"} /\ sh.live
  /\ LET s == Settle(sh)
     IN CASE Is("hook") -> CanHook(s) /\ E.f = 0 /\ E.a = s.args /\ Go(Hook(s))
          [] Is("exec") -> CanExec(s) /\ E.f = s.f.id /\ E.a = s.args /\ Go(Exec(s))
          [] Is("get")  -> CanGet(s) /\ E.f = s.f.id /\ Go(Get(s))
          [] Is("proc") -> CanProc(s) /\ E.f = s.f.id /\ Go(Proc(s))
          [] Is("set")  -> CanSet(s) /\ E.f = s.f.id /\ E.d = s.dat /\ Go(Set(s))

Returned ==
  \/ Is("ret") /\ sh.ph \in {"inhook", "inexec", "inset", "inproc"} /\ Go(Return(sh))
  \/ Is("getr") /\ sh.ph = "inget" /\ Go(ReturnData(sh, E.d))

\* -------------------------------------------------------------- public API
Effect(s) ==
  CASE Is("print")  -> ApiPrint(s, E.d)
    [] Is("printo") -> ApiPrintBuf(s, E.d)
    [] Is("pnnl")   -> ApiPrintNnl(s, E.d)
    [] Is("pnnlo")  -> ApiFlush(s, E.d)
    [] Is("flush")  -> ApiFlush(s, E.d)
    [] Is("flushb") -> ApiFlush(s, CStr(s.cur.d))
    [] Is("printf") -> ApiPrintf(s, E.d)
    [] Is("printfe") -> ApiPrintfErr(s, E.d)
    [] Is("ps")     -> ApiProcess(s)
    [] Is("pw")     -> ApiWriteOn(s, E.d)
    [] Is("status") -> ApiStatus(s, E.c)
    [] Is("reset")  -> ApiReset(s)
    [] Is("mount")  -> Mount(s, E.n, E.p, E.f)
    [] Is("umount") -> Unmount(s, E.p)
    [] Is("cd")     -> SetDir(s, E.p)
    [] Is("cadd")   -> AddCmds(s, E.n, E.f)
    [] Is("crem")   -> RemCmds(s, E.n)
    [] Is("find")   -> s
    [] Is("node")   -> s
    [] Is("pnode")  -> s
    [] Is("abs")    -> s
    [] Is("deinit") -> Deinit(s)

Result(s) ==
  CASE Is("mount")  -> E.r = MountRes(s, E.p)
    [] Is("umount") -> E.r = UnmountRes(s, E.p)
    [] Is("cd")     -> E.r = SetDirRes(s, E.p)
    [] Is("cadd")   -> E.r = 0
    [] Is("crem")   -> E.r = RemCmdsRes(s, E.n)
    [] Is("find")   -> E.r = FindFile(s, E.p).id
    [] Is("node")   -> E.r = Dir(s, E.p).id
    [] Is("pnode")  -> E.r = ParentDir(s, E.p).id
    [] Is("abs")    -> E.r = Abs(s, E.p)
    [] Is("flushb") -> s.cur.s = 1
    [] Is("ps")     -> s.ph \in {"inexec", "inproc"}
    [] Is("pw")     -> s.ph \in {"inexec", "inproc"} /\ s.pf.id # 0
    [] Is("deinit") -> E.o = 1 /\ \A i \in 1..Len(s.fs) : \E j \in 1..Len(E.z) : E.z[j] = s.fs[i].id
    [] OTHER -> TRUE

Api ==
  /\ E.e \in {"print", "printo", "pnnl", "pnnlo", "flush", "flushb", "printf", "printfe", "ps", "pw", "status", "reset", "mount",
              "umount", "cd", "cadd", "crem", "find", "node", "pnode", "abs", "deinit"}
  /\ sh.live
  /\ \E s \in Chain(sh) : CanCall(s) /\ Result(s) /\ Go(Effect(s))

Next == l <= N /\ (Frame \/ Start \/ Wrote \/ Refused \/ Got \/ Polled \/ Idle \/ Called \/ Returned \/ Api \/ Saved \/ Restored)

Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- acceptance
ASSUME TLCSet(1, 0)
ASSUME TLCSet(2, <<>>)
Track == IF l > TLCGet(1) THEN TLCSet(1, l) /\ TLCSet(2, sh) ELSE TRUE

Accepted ==
  /\ PrintT(<<"REACHED", TLCGet(1), N + 1>>)
  /\ TLCGet(1) = N + 1 \/ PrintT(<<"STUCK", ToJson(TLCGet(2))>>)
=============================================================================
