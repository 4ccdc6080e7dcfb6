------------------------------- MODULE Cipher -------------------------------
(***************************************************************************)
(* The packet cipher as a sealing and an opening end that agree on a key    *)
(* and a first sequence number. Sealed packets are terms (key, sequence     *)
(* number, contents) that only the sealing end can make. The channel        *)
(* between them belongs to an adversary: it delivers what it likes.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
  sealed,   \* what the sealing end made, in order: [seq, plain]
  opened    \* what the opening end accepted, in order

cvars == <<sealed, opened>>

CInit == sealed = <<>> /\ opened = <<>>

NextSeal == Len(sealed)
NextOpen == Len(opened)

Seal(plain) ==
  /\ sealed' = Append(sealed, [seq |-> NextSeal, plain |-> plain])
  /\ UNCHANGED opened

(* Packets that differ from all sealed ones *)
Kinds == {"genuine", "length", "data", "tag", "short", "long", "zerotag", "swap", "plain", "otherdir", "otherkey", "otherseq", "random"}

(* The opening end is offered packet i (from 0), as it is or changed *)
Accepts(i, kind) == kind = "genuine" /\ i = NextOpen /\ i < Len(sealed)
Offer(i, kind) ==
  /\ IF Accepts(i, kind) THEN opened' = Append(opened, sealed[i + 1]) ELSE UNCHANGED opened
  /\ UNCHANGED sealed

(* C21, C06: what was accepted is a prefix of what was sealed *)
InOrder == Len(opened) <= Len(sealed) /\ \A i \in 1..Len(opened) : opened[i] = sealed[i]
(* No sequence number twice *)
Fresh == \A i, j \in 1..Len(sealed) : i # j => sealed[i].seq # sealed[j].seq
(* The next genuine packet is accepted whatever was offered before *)
NotStuck == NextOpen < Len(sealed) => Accepts(NextOpen, "genuine")
=============================================================================
