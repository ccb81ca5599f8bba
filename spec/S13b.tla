-------------------------------- MODULE S13b --------------------------------
(* Confluence and progress at the granularity of single bytes.  The interface  *)
(* accepts or refuses each byte, input arrives when it likes, and the          *)
(* application returns from callbacks when it likes.  The log of everything    *)
(* observable is always a prefix of one log that does not depend on the        *)
(* schedule, and under fairness of the environment it is completed.            *)
EXTENDS App, TLC, IOUtils, Json

Fl == <<F(B("x"), <<B("dx")>>, <<B("help")>>, 1, 1, 1, B("ab") \o <<0, 255>> \o B("c")), F(B("xy"), <<>>, <<>>, 0, 1, 0, <<>>)>>
Wo == World(0, 32, 32, 32, B("h"), 1, Fl, <<<<1, 2>>, <<2>>>>, <<MountOp(1, RootPath, 1), MountOp(2, B("/d"), 2), GoOn>>)
Thorough == IOEnv.USH_TIER = "thorough"
Sessions ==
  <<B("ls") \o <<CR>> \o B("cd d") \o <<CR>>,
    B("x") \o <<TAB, TAB>> \o B("y") \o <<BS, BS>> \o B("x 1") \o <<LF>>,
    B("cat x xy x") \o <<CR>> \o B("q") \o <<CR>>,
    B("xxd x") \o <<CR>> \o B("a") \o <<ETX>>,
    B("echo ab > x") \o <<CR, CR>> \o B("pwd") \o <<CR>>,
    B("help x") \o <<CR, ESC>> \o B("[A\\x41") \o <<DEL, LF>>>>

VARIABLES n, st, wait, log
vars == <<n, st, wait, log>>

Init == n \in 1..Len(Sessions) /\ st = Start(Wo) /\ wait = Sessions[n] /\ log = <<>>

S == Settle(st.sh)
Arrive == wait # <<>> /\ st' = [st EXCEPT !.inq = Append(@, Head(wait))] /\ wait' = Tail(wait) /\ UNCHANGED <<n, log>>
Accept == CanWrite(S) /\ st' = [st EXCEPT !.sh = WriteN(S, 1)] /\ log' = Append(log, <<"w", NextByte(S)>>) /\ UNCHANGED <<n, wait>>
Refuse == CanWrite(S) /\ st' = [st EXCEPT !.sh = S] /\ UNCHANGED <<n, wait, log>>
Poll   == CanRead(S) /\ st' = [st EXCEPT !.sh = S] /\ UNCHANGED <<n, wait, log>>
Read   == CanRead(S) /\ st.inq # <<>> /\ st' = [st EXCEPT !.sh = ReadByte(S, Head(st.inq)), !.inq = Tail(@)]
          /\ log' = Append(log, <<"r", Head(st.inq)>>) /\ UNCHANGED <<n, wait>>
Back   == CallbackDue(S) /\ st' = [Callback(Wo, [st EXCEPT !.sh = S]) EXCEPT !.calls = <<>>]
          /\ log' = Append(log, <<"c", Callback(Wo, [st EXCEPT !.sh = S]).calls>>) /\ UNCHANGED <<n, wait>>
Next == Arrive \/ Accept \/ Refuse \/ Poll \/ Read \/ Back
Spec == Init /\ [][Next]_vars /\ WF_vars(Arrive) /\ WF_vars(Accept) /\ WF_vars(Read) /\ WF_vars(Back)

\* the log of the schedule in which everything is always ready
RECURSIVE Ready(_, _)
Ready(s0, lg) ==
  LET s == [s0 EXCEPT !.sh = Settle(@)]
  IN IF CallbackDue(s.sh) THEN LET t == Callback(Wo, s) IN Ready([t EXCEPT !.calls = <<>>], Append(lg, <<"c", t.calls>>))
     ELSE IF CanWrite(s.sh) THEN Ready([s EXCEPT !.sh = WriteN(@, 1)], Append(lg, <<"w", NextByte(s.sh)>>))
     ELSE IF CanRead(s.sh) /\ s.inq # <<>>
     THEN Ready([s EXCEPT !.sh = ReadByte(@, Head(s.inq)), !.inq = Tail(@)], Append(lg, <<"r", Head(s.inq)>>))
     ELSE [log |-> lg, st |-> s]
Goal == [k \in 1..Len(Sessions) |-> Ready([Start(Wo) EXCEPT !.inq = Sessions[k]], <<>>)]

Confluent == Len(log) <= Len(Goal[n].log) /\ log = SubSeq(Goal[n].log, 1, Len(log))
\* never stuck: something other than waiting for input is possible, or the shell waits for input
Alive == CallbackDue(S) \/ CanWrite(S) \/ CanRead(S)
\* one thing at a time
Exclusive == ~(CanWrite(S) /\ CanRead(S)) /\ ~(CallbackDue(S) /\ (CanWrite(S) \/ CanRead(S)))
Universal == Alive /\ Exclusive
Scenario == Confluent
Done == log = Goal[n].log /\ wait = <<>> /\ CanRead(S)
Progress == <>[]Done
View == <<n, Len(log), Len(wait)>>
(*
CFG BEGIN
SPECIFICATION Spec
INVARIANTS Universal Scenario
PROPERTY Progress
CHECK_DEADLOCK FALSE
CFG END
*)
=============================================================================
