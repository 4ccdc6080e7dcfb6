-------------------------------- MODULE Fresh --------------------------------
(***************************************************************************)
(* Where the secrets of handshakes come from. The output of a random        *)
(* generator is a function of its seed and of how much was drawn from it    *)
(* before; <<seed, position>> stands for it. Connections draw a cookie, an  *)
(* ephemeral key and what their signature needs, may break off at any       *)
(* point, and the server may be restarted. No output may be used twice.     *)
(*                                                                          *)
(* Seeding says how connections get generators:                             *)
(*   entropy   every connection seeds its own from entropy                  *)
(*   shared    all connections of a run draw from one, seeded from entropy  *)
(*   constant  every connection seeds its own in the same way               *)
(*   counter   every connection seeds its own with its number in the run    *)
(*   copy      every connection copies one of the run as it was at first    *)
(* The first two are fine, the others must fail.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Seedings, MaxConns, MaxRuns

VARIABLES seeding, entropy, run, gen, live, drawn, total

vars == <<seeding, entropy, run, gen, live, drawn, total>>

Draws == 3   \* cookie, ephemeral key, signature

\* gen[0] belongs to the run, gen[c] to connection c
Init ==
  /\ seeding \in Seedings
  /\ entropy = 2 /\ run = 1 /\ total = 0
  /\ gen = (0 :> [seed |-> <<"entropy", 1>>, pos |-> 0])
  /\ live = <<>> /\ drawn = <<>>

Seed(c) ==
  CASE seeding = "entropy" -> [seed |-> <<"entropy", entropy>>, pos |-> 0]
    [] seeding = "constant" -> [seed |-> <<"const", 0>>, pos |-> 0]
    [] seeding = "counter" -> [seed |-> <<"count", c>>, pos |-> 0]
    [] OTHER -> gen[0]

Start ==
  LET c == Cardinality(DOMAIN gen) IN
  /\ total < MaxConns
  /\ total' = total + 1
  /\ gen' = (c :> Seed(c)) @@ gen
  /\ live' = (c :> 0) @@ live
  /\ entropy' = entropy + (IF seeding = "entropy" THEN 1 ELSE 0)
  /\ UNCHANGED <<seeding, run, drawn>>

Draw(c) ==
  LET g == IF seeding = "shared" THEN 0 ELSE c IN
  /\ live[c] < Draws
  /\ live' = [live EXCEPT ![c] = @ + 1]
  /\ drawn' = Append(drawn, <<gen[g].seed, gen[g].pos>>)
  /\ gen' = [gen EXCEPT ![g].pos = @ + 1]
  /\ UNCHANGED <<seeding, entropy, run, total>>

Break(c) ==
  /\ live' = [x \in DOMAIN live \ {c} |-> live[x]]
  /\ UNCHANGED <<seeding, entropy, run, gen, drawn, total>>

Restart ==
  /\ run < MaxRuns
  /\ run' = run + 1
  /\ gen' = (0 :> [seed |-> <<"entropy", entropy>>, pos |-> 0])
  /\ entropy' = entropy + 1
  /\ live' = <<>>
  /\ UNCHANGED <<seeding, drawn, total>>

Next == Start \/ Restart \/ \E c \in DOMAIN live : Draw(c) \/ Break(c)
Spec == Init /\ [][Next]_vars

AllFresh == \A i, j \in 1..Len(drawn) : i # j => drawn[i] # drawn[j]
NeverMany == Len(drawn) < 5 \/ run < MaxRuns
=============================================================================
