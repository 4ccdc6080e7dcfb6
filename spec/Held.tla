-------------------------------- MODULE Held ---------------------------------
(***************************************************************************)
(* What the server holds for connections, channels and processes that come  *)
(* and go without end. The peer opens channels, starts processes, closes    *)
(* channels and hangs up; processes end their outputs and exit; the server  *)
(* takes each of these events and releases what is not needed any more. A   *)
(* channel takes the first free slot of a table.                            *)
(* Keep names what a broken design does not release:                        *)
(*   "channel"  a channel whose process still runs when the peer closes it  *)
(*   "output"   the outputs of processes when their connection ends         *)
(*   "slot"     numbers of channels are never used again                    *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC

CONSTANTS Conns, MaxChans, Keep, MaxSlots

VARIABLES open,     \* connections that are open, as the peers see it
          todo,     \* connections whose end the server has not seen yet
          chans,    \* channels that are open, as the peer sees it: <<connection, slot>>
          procs,    \* running processes: [c, slot, fresh]: fresh if its channel is open
          table,    \* what the server holds: slots of channels
          outs,     \* and outputs of processes: <<connection, slot>> -> how many
          size      \* of the table of each connection

vars == <<open, todo, chans, procs, table, outs, size>>

Init == open = {} /\ todo = {} /\ chans = {} /\ procs = {} /\ table = {} /\ outs = [x \in {} |-> 0] /\ size = [c \in Conns |-> 0]

Count(x) == IF x \in DOMAIN outs THEN outs[x] ELSE 0
SetCount(x, n) == [y \in (DOMAIN outs \cup {x}) \ (IF n = 0 THEN {x} ELSE {}) |-> IF y = x THEN n ELSE outs[y]]

Connect(c) ==
  /\ c \notin open /\ c \notin todo
  /\ open' = open \cup {c} /\ size' = [size EXCEPT ![c] = 0]
  /\ UNCHANGED <<todo, chans, procs, table, outs>>

Slots(c) == {x[2] : x \in {y \in table : y[1] = c}}
Free(c) == IF Keep = "slot" THEN size[c] ELSE CHOOSE s \in 0..MaxSlots : s \notin Slots(c) /\ \A t \in 0..MaxSlots : t < s => t \in Slots(c)

Open(c) ==
  /\ c \in open
  /\ Cardinality({x \in chans : x[1] = c}) + Cardinality({p \in procs : p.c = c /\ ~p.fresh}) < MaxChans
  /\ size[c] <= MaxSlots
  /\ LET s == Free(c) IN
     /\ chans' = chans \cup {<<c, s>>} /\ table' = table \cup {<<c, s>>}
     /\ size' = [size EXCEPT ![c] = IF s + 1 > @ THEN s + 1 ELSE @]
  /\ UNCHANGED <<open, todo, procs, outs>>

Start(x) ==
  /\ x \in chans /\ [c |-> x[1], slot |-> x[2], fresh |-> TRUE] \notin procs
  /\ procs' = procs \cup {[c |-> x[1], slot |-> x[2], fresh |-> TRUE]}
  /\ outs' = SetCount(x, Count(x) + 1)
  /\ UNCHANGED <<open, todo, chans, table, size>>

Close(x) ==
  /\ x \in chans
  /\ LET p == [c |-> x[1], slot |-> x[2], fresh |-> TRUE]
         q == [p EXCEPT !.fresh = FALSE] IN
     /\ q \notin procs
     /\ chans' = chans \ {x}
     /\ table' = IF Keep = "channel" /\ p \in procs THEN table ELSE table \ {x}
     /\ procs' = IF p \in procs THEN (procs \ {p}) \cup {q} ELSE procs
  /\ UNCHANGED <<open, todo, outs, size>>

\* Both outputs end and the process exits
Exit(p) ==
  /\ p \in procs
  /\ procs' = procs \ {p}
  /\ outs' = IF p.c \in open THEN SetCount(<<p.c, p.slot>>, Count(<<p.c, p.slot>>) - 1) ELSE outs
  /\ UNCHANGED <<open, todo, chans, table, size>>

HangUp(c) ==
  /\ c \in open
  /\ open' = open \ {c} /\ todo' = todo \cup {c}
  /\ chans' = {x \in chans : x[1] # c}
  /\ procs' = {p \in procs : p.c # c}
  /\ UNCHANGED <<table, outs, size>>

Release(c) ==
  /\ c \in todo
  /\ todo' = todo \ {c}
  /\ table' = {x \in table : x[1] # c}
  /\ outs' = IF Keep = "output" THEN outs ELSE [x \in {y \in DOMAIN outs : y[1] # c} |-> outs[x]]
  /\ size' = [size EXCEPT ![c] = 0]
  /\ UNCHANGED <<open, chans, procs>>

Next == \/ \E c \in Conns : Connect(c) \/ Open(c) \/ HangUp(c) \/ Release(c)
        \/ \E x \in chans : Start(x) \/ Close(x)
        \/ \E p \in procs : Exit(p)
Spec == Init /\ [][Next]_vars /\ (\A c \in Conns : WF_vars(Release(c)))

Rest == todo = {}
\* At rest the server holds what is open and nothing else
OnlyOpen ==
  Rest => /\ table = chans
          /\ \A x \in DOMAIN outs : outs[x] = Cardinality({p \in procs : p.c = x[1] /\ p.slot = x[2]})
\* The size of a table depends on how many channels were open at a time, not on how many there were
Bounded == \A c \in Conns : size[c] <= MaxChans
Released == \A c \in Conns : (c \notin open /\ c \in todo) ~> (c \notin todo)
=============================================================================
