------------------------------ MODULE MCPacket ------------------------------
(* Every payload has a framing, every framing is accepted and gives the      *)
(* payload back, and what is accepted with enough padding is a framing.      *)
EXTENDS Packet
CONSTANT MaxPayload

VARIABLES p, bs, rule
Init == p = 0 /\ bs \in Blocks /\ rule \in BOOLEAN
Next == p < MaxPayload /\ p' = p + 1 /\ UNCHANGED <<bs, rule>>
Spec == Init /\ [][Next]_<<p, bs, rule>>

Pads == {x \in 4..255 : Framed(p, bs, rule, 1 + p + x, x)}
Possible == Pads # {} /\ \E x \in Pads : x < 4 + bs
Inverse == \A x \in Pads : /\ Accepts(U32(1 + p + x), x, bs, rule)
                           /\ PayloadLen(1 + p + x, x) = p
Exact == \A x \in 4..255 : Accepts(U32(1 + p + x), x, bs, rule) => x \in Pads
=============================================================================
