------------------------------- MODULE Record -------------------------------
(***************************************************************************)
(* The sealed packet stream of one direction under an active adversary      *)
(* (C06, C21). A packet of number n is a header byte, Body bytes and a tag  *)
(* byte; a byte is what it was sealed as: <<number, place, altered>>. The   *)
(* adversary may alter, remove, repeat and move bytes that are on their     *)
(* way, and cut the connection. The receiver first learns the length from    *)
(* the header, which is not authenticated yet: a header that is not the      *)
(* genuine one of the expected number decrypts to an arbitrary length.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Packets,   \* packets the peer seals
          Body,      \* bytes between header and tag
          Attacks    \* steps of the adversary

VARIABLES sealed,   \* number of the next packet to seal
          wire,     \* bytes on their way
          cut,      \* no more bytes will arrive
          rseq,     \* number that the receiver expects
          want,     \* bytes that are still needed for the packet, or 0 before a header
          got,      \* bytes of the packet so far
          done,     \* packets that took effect
          dead,     \* the receiver ended the connection
          attacks

vars == <<sealed, wire, cut, rseq, want, got, done, dead, attacks>>

Last == Body + 2
Genuine(n) == [i \in 1..Last |-> <<n, i, FALSE>>]

Init == /\ sealed = 0 /\ wire = <<>> /\ cut = FALSE /\ rseq = 0 /\ want = 0
        /\ got = <<>> /\ done = <<>> /\ dead = FALSE /\ attacks = 0

Seal == /\ sealed < Packets /\ ~cut
        /\ sealed' = sealed + 1
        /\ wire' = wire \o Genuine(sealed)
        /\ UNCHANGED <<cut, rseq, want, got, done, dead, attacks>>

Remove(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Insert(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))

Packet(i) == [k \in 1..Last |-> wire[i + k - 1]]
PacketAt(i) == i + Last - 1 <= Len(wire) /\ wire[i][2] = 1 /\ Packet(i) = Genuine(wire[i][1])

Attack ==
  /\ attacks < Attacks
  /\ attacks' = attacks + 1
  /\ \/ \E i \in 1..Len(wire) :
          \/ wire' = [wire EXCEPT ![i][3] = ~@]
          \/ wire' = Remove(wire, i)
          \/ wire' = Insert(wire, i, wire[i])
          \/ i < Len(wire) /\ wire' = [wire EXCEPT ![i] = wire[i + 1], ![i + 1] = wire[i]]
          \* whole packets: dropped, repeated at the end, swapped with the next
          \/ PacketAt(i) /\ wire' = SubSeq(wire, 1, i - 1) \o SubSeq(wire, i + Last, Len(wire))
          \/ PacketAt(i) /\ wire' = wire \o Packet(i)
          \/ PacketAt(i) /\ PacketAt(i + Last) /\ wire' = SubSeq(wire, 1, i - 1) \o Packet(i + Last) \o Packet(i) \o SubSeq(wire, i + 2 * Last, Len(wire))
     \* a packet that was received already
     \/ \E n \in 0..(sealed - 1) : wire' = wire \o Genuine(n)
  /\ UNCHANGED <<sealed, cut, rseq, want, got, done, dead>>

Cut == ~cut /\ cut' = TRUE /\ UNCHANGED <<sealed, wire, rseq, want, got, done, dead, attacks>>

Header ==
  /\ ~dead /\ want = 0 /\ wire # <<>>
  /\ wire' = Tail(wire) /\ got' = <<Head(wire)>>
  /\ IF Head(wire) = <<rseq, 1, FALSE>> THEN want' = Body + 1 /\ dead' = dead
     ELSE \/ \E n \in 1..(Last + 1) : want' = n /\ dead' = dead     \* any other length
          \/ dead' = TRUE /\ want' = 0                              \* larger than the buffer
  /\ UNCHANGED <<sealed, cut, rseq, done, attacks>>

Byte ==
  /\ ~dead /\ want > 0 /\ wire # <<>>
  /\ wire' = Tail(wire)
  /\ IF want > 1 THEN want' = want - 1 /\ got' = Append(got, Head(wire)) /\ UNCHANGED <<rseq, done, dead>>
     ELSE LET all == Append(got, Head(wire)) IN
          /\ want' = 0 /\ got' = <<>>
          /\ IF all = Genuine(rseq)     \* the tag under number rseq is right
             THEN rseq' = rseq + 1 /\ done' = Append(done, all[1][1]) /\ dead' = dead
             ELSE dead' = TRUE /\ UNCHANGED <<rseq, done>>
  /\ UNCHANGED <<sealed, cut, attacks>>

End == ~dead /\ cut /\ wire = <<>> /\ dead' = TRUE /\ UNCHANGED <<sealed, wire, cut, rseq, want, got, done, attacks>>

Next == Seal \/ Attack \/ Cut \/ Header \/ Byte \/ End

Spec == Init /\ [][Next]_vars /\ WF_vars(Seal) /\ WF_vars(Header) /\ WF_vars(Byte) /\ WF_vars(End)

-----------------------------------------------------------------------------
\* What takes effect is a prefix of what was sealed, each packet once and in order
Prefix == Len(done) <= sealed /\ \A i \in 1..Len(done) : done[i] = i - 1
Numbers == rseq = Len(done)
\* Without an adversary everything takes effect
Delivered == <>(attacks > 0 \/ cut \/ Len(done) = Packets)
\* A connection that was cut ends
Ends == cut ~> dead
\* Sensitivity
NeverAllDespiteAttack == ~(attacks = Attacks /\ Len(done) = Packets)
=============================================================================
