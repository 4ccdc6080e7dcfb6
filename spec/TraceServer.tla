---------------------------- MODULE TraceServer -----------------------------
(* Validates recorded runs of the real server against NoraServer.            *)
(* File TRACES: one JSON object with a field "trace" per line.               *)
EXTENDS NoraServer, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l

Ev == Traces[tid].trace[l]
Len_ == Len(Traces[tid].trace)

TraceReport(labels, reason) == PrintT(<<"REJECT", tid, l, labels, reason>>) /\ FALSE

Has(r, f) == f \in DOMAIN r

TraceInit == Init /\ tid \in 1..Len(Traces) /\ l = 1

Step ==
  /\ l <= Len_
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ CASE Ev.e = "connect" -> Connect(Ev.c)
       [] Ev.e = "accept" -> Accept(Ev.c)
       [] Ev.e = "feed" -> Feed(Ev.c, Ev.it)
       [] Ev.e = "part" -> Part(Ev.c, Ev.it)
       [] Ev.e = "werr" -> WriteFails(Ev.c)
       [] Ev.e = "srv" -> Send(Ev.c, Ev.m)
       [] Ev.e = "auth" -> CallAuth(Ev.id, Ev.a)
       [] Ev.e = "pk" -> CallKey(Ev.id, Ev.a)
       [] Ev.e = "spawn" -> CallSpawn(Ev.id, Ev.user, Ev.a)
       [] Ev.e = "res" -> Resolved(Ev.id, Ev)
       [] Ev.e = "in" -> Input(Ev.p, Ev.n, Elems(Ev.at))
       [] Ev.e = "inerr" -> InputError(Ev.p)
       [] Ev.e = "indrop" -> InputDrop(Ev.p)
       [] Ev.e = "out" -> Output(Ev.p, Ev.s, Ev.n)
       [] Ev.e = "oeof" -> OutputEnd(Ev.p, Ev.s)
       [] Ev.e = "exit" -> Exit(Ev.p, Ev.st)
       [] Ev.e = "closed" -> Closed(Ev.c)
       [] Ev.e = "quiet" -> Quiet(Elems(Ev.wb), Elems(Ev.ib), Elems(Ev.rs))
       [] Ev.e = "badpkt" -> Chk({"C07", "C04", "C17", "C13"}, "not a valid packet of the server: " \o Ev.why, FALSE)
       [] Ev.e \in {"panic", "stopped", "spin", "hang"} ->
            Chk({"C08", "C05", "C18"} \cup Stopped, Ev.e \o ": " \o Ev.msg, FALSE)

Finished == l > Len_ /\ PrintT(<<"DONE", tid>>) /\ UNCHANGED <<vars, tid, l>>

TraceNext == Step \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>
=============================================================================
