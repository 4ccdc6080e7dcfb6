----------------------------- MODULE TraceFair ------------------------------
(***************************************************************************)
(* Judges what the real server polled, in which order, while others always  *)
(* had work for it (C26). Fair.tla says that whoever was woken is served     *)
(* after at most one turn of each other job. Here the events are             *)
(*   wake s    something happened that s waits for                          *)
(*   poll s    s is polled                                                   *)
(*   gone s    the server drops s                                            *)
(* and s is the input (r) or output (w) of a connection, a new connection   *)
(* (n), an answer that a peer waits for (q), the output of a process (o),    *)
(* what was read of it and is not sent yet (d), its exit (x), its input (i), *)
(* a call of the application (k) or the next connection to accept (a).       *)
(* With each event come the number of polls of anything that had a result    *)
(* until then (k) and the bytes they moved (n). Waits that were far shorter   *)
(* than allowed are left out of the record.                                  *)
(* How long a turn may be is not fixed but it does not depend on how much    *)
(* the others have.                                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS MaxPolls, MaxBytes     \* of all others together

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, since          \* since: k and n when s began to wait
vars == <<tid, l, since>>
Tr == Traces[tid].trace
Ev == Tr[l]
Len_ == Len(Tr)
Chk(why, ok) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", tid, l, {"C26"}, why>>) /\ FALSE

Init == tid \in 1..Len(Traces) /\ l = 1 /\ since = <<>>

Without(s) == [x \in DOMAIN since \ {s} |-> since[x]]
Patient ==
  \A x \in DOMAIN since :
    /\ Chk("starved: " \o x \o " waits while others are served many times", Ev.k - since[x][1] <= MaxPolls)
    /\ Chk("starved: " \o x \o " waits while others read or write much", Ev.n - since[x][2] <= MaxBytes)

Step ==
  /\ l <= Len_
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ Patient
  /\ CASE Ev.e = "wake" -> since' = IF Ev.s \in DOMAIN since THEN since ELSE since @@ (Ev.s :> <<Ev.k, Ev.n>>)
       [] Ev.e \in {"gone", "poll"} -> since' = Without(Ev.s)
       [] Ev.e = "died" -> Chk("the server stopped or does not return: " \o Ev.s, FALSE) /\ UNCHANGED since
       [] Ev.e = "quiet" ->
            /\ \A x \in DOMAIN since : Chk("forgotten: " \o x \o " was never served", FALSE)
            /\ UNCHANGED since

Finished == l > Len_ /\ PrintT(<<"DONE", tid>>) /\ UNCHANGED vars
Next == Step \/ Finished
Spec == Init /\ [][Next]_vars
=============================================================================
