-------------------------------- MODULE Fair ---------------------------------
(***************************************************************************)
(* How connections and processes share the one task of the server. Each is  *)
(* a job with input that it handles unit by unit. A job without input rests *)
(* until more arrives, which puts it into the queue of those to be polled;  *)
(* a job that was polled goes on until it has nothing left or, if Quantum   *)
(* is not 0, until it handled so many units: then it queues again. Input of *)
(* the jobs in Busy never ends.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Jobs, Busy, Quantum, MaxInput,
          Lifo,   \* the job that was woken last is polled first
          Lost    \* jobs that arrivals do not wake

VARIABLES input, queue, cur, done, since

vars == <<input, queue, cur, done, since>>
Idle == 0

Init ==
  /\ input = [j \in Jobs |-> 0] /\ queue = <<>> /\ cur = Idle
  /\ done = 0                         \* units of this turn
  /\ since = [j \in Jobs |-> 0]       \* units of others since there is input to handle

In(q, j) == \E i \in 1..Len(q) : q[i] = j
Put(q, j) == IF Lifo THEN <<j>> \o q ELSE Append(q, j)

Arrive(j) ==
  /\ input[j] < MaxInput
  /\ input' = [input EXCEPT ![j] = @ + 1]
  /\ queue' = IF cur = j \/ In(queue, j) \/ j \in Lost THEN queue ELSE Put(queue, j)
  /\ UNCHANGED <<cur, done, since>>

Poll ==
  /\ cur = Idle /\ queue # <<>>
  /\ cur' = Head(queue) /\ queue' = Tail(queue) /\ done' = 0
  /\ UNCHANGED <<input, since>>

Has(j) == input[j] > 0 \/ j \in Busy

Handle ==
  /\ cur # Idle /\ Has(cur) /\ (Quantum = 0 \/ done < Quantum)
  /\ input' = IF cur \in Busy THEN input ELSE [input EXCEPT ![cur] = @ - 1]
  /\ done' = IF Quantum = 0 THEN 0 ELSE done + 1
  /\ since' = [j \in Jobs |-> IF j = cur \/ input[j] = 0 THEN 0 ELSE IF since[j] < 50 THEN since[j] + 1 ELSE 50]
  /\ UNCHANGED <<queue, cur>>

Leave ==
  /\ cur # Idle /\ (~Has(cur) \/ (Quantum # 0 /\ done = Quantum))
  /\ queue' = IF Has(cur) THEN Append(queue, cur) ELSE queue
  /\ cur' = Idle /\ done' = 0
  /\ UNCHANGED <<input, since>>

Next == Poll \/ Handle \/ Leave \/ \E j \in Jobs : Arrive(j)

Spec == Init /\ [][Next]_vars /\ WF_vars(Poll \/ Handle \/ Leave)

\* Nothing that arrives is left lying
Served == \A j \in Jobs \ Busy : (input[j] > 0) ~> (input[j] = 0 \/ cur = j)
\* and nobody waits for more than one turn of everybody else
Bounded == \A j \in Jobs : since[j] <= Quantum * (Cardinality(Jobs) - 1)
NeverFull == Len(queue) < Cardinality(Jobs) - 1
=============================================================================
