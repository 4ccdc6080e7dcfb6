----------------------------- MODULE TraceHeld ------------------------------
(***************************************************************************)
(* Judges what the real server holds when everything is at rest (C27).      *)
(* Held.tla says that this depends only on what is open. Events:            *)
(*   connect c, login c, spawn p c (by the login of c), hangup c, rerr c,   *)
(*   closed c (the server released both directions of the transport),       *)
(*   oeof p s, oerr p s (an output of p ended), exit p,                      *)
(*   mark s: at rest; held: what the server has not released; n: bytes that  *)
(*     it allocated and did not free. The same is open at all marks of the   *)
(*     same name.                                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Warm,     \* visits until caches and tables have their size
          Slack     \* bytes

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, open, users, proc, base
vars == <<tid, l, open, users, proc, base>>
Tr == Traces[tid].trace
Ev == Tr[l]
Len_ == Len(Tr)
Elems(q) == {q[i] : i \in 1..Len(q)}
Chk(why, ok) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", tid, l, {"C27"}, why>>) /\ FALSE
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Init == tid \in 1..Len(Traces) /\ l = 1 /\ open = {} /\ users = {} /\ proc = <<>> /\ base = <<>>

Over(c) == open' = open \ {c} /\ users' = users \ {c} /\ UNCHANGED <<proc, base>>
Running(p) == proc[p].c \in open /\ ~(proc[p].ended = {1, 2} /\ proc[p].exited)
Visits(s) == IF s \in DOMAIN base THEN base[s].k ELSE 0
Most(s) == IF s \in DOMAIN base THEN base[s].n ELSE 0

Mark ==
  LET h == Ev.held IN
  /\ Chk("a connection that is over is held", Elems(h.conns) \subseteq open)
  /\ Chk("the login of a connection that is over is held", h.users <= Cardinality(users))
  /\ Chk("the input of a process of a connection that is over is held", \A p \in Elems(h.ins) : proc[p].c \in open)
  /\ Chk("outputs of a process that is done are held", \A p \in Elems(h.outs) : Running(p))
  /\ Chk("a call of the application for a connection that is over is pending", open = {} => h.calls = 0)
  /\ IF Visits(Ev.s) < Warm
       THEN base' = Put(base, Ev.s, [k |-> Visits(Ev.s) + 1, n |-> IF Ev.n > Most(Ev.s) THEN Ev.n ELSE Most(Ev.s)])
       ELSE /\ Chk("memory grows although the same is open", Ev.n <= Most(Ev.s) + Slack)
            /\ UNCHANGED base
  /\ UNCHANGED <<open, users, proc>>

Step ==
  /\ l <= Len_
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ CASE Ev.e = "connect" -> open' = open \cup {Ev.c} /\ UNCHANGED <<users, proc, base>>
       [] Ev.e = "login" -> users' = users \cup ({Ev.c} \cap open) /\ UNCHANGED <<open, proc, base>>
       [] Ev.e = "spawn" -> proc' = Put(proc, Ev.p, [c |-> Ev.c, ended |-> {}, exited |-> FALSE]) /\ UNCHANGED <<open, users, base>>
       [] Ev.e \in {"hangup", "rerr", "closed"} -> Over(Ev.c)
       [] Ev.e \in {"oeof", "oerr"} -> proc' = (IF Ev.p \in DOMAIN proc THEN [proc EXCEPT ![Ev.p].ended = @ \cup {Ev.s}] ELSE proc)
                                       /\ UNCHANGED <<open, users, base>>
       [] Ev.e = "exit" -> proc' = (IF Ev.p \in DOMAIN proc THEN [proc EXCEPT ![Ev.p].exited = TRUE] ELSE proc) /\ UNCHANGED <<open, users, base>>
       [] Ev.e = "died" -> Chk("the server stopped, does not return or holds more than 100 MB", FALSE) /\ UNCHANGED <<open, users, proc, base>>
       [] Ev.e = "mark" -> Mark

Finished == l > Len_ /\ PrintT(<<"DONE", tid>>) /\ UNCHANGED vars
Next == Step \/ Finished
Spec == Init /\ [][Next]_vars
=============================================================================
