------------------------------ MODULE MCCipher ------------------------------
EXTENDS Cipher
CONSTANTS MaxPackets, Plains
VARIABLE offers
Init == CInit /\ offers = 0
Next == \/ Len(sealed) < MaxPackets /\ \E p \in Plains : Seal(p) /\ UNCHANGED offers
        \/ offers < 4 /\ \E i \in 0..MaxPackets, k \in Kinds : Offer(i, k) /\ offers' = offers + 1
Spec == Init /\ [][Next]_<<cvars, offers>>
NeverAll == Len(opened) < 3
=============================================================================
