------------------------------- MODULE Bytes -------------------------------
(* Byte strings and the data types of RFC 4251 section 5.                  *)
(* A byte string is a sequence of 0..255, a uint32 is a sequence of 4 bytes *)
(* (TLC's integers have 31 bits).                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Byte == 0..255

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

Code == [ch \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
            31 + CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = ch]

(* The bytes of a printable ASCII string *)
B(s) == [i \in 1..Len(s) |-> Code[SubSeq(s, i, i)]]

(* uint32 of a natural number below 2^31 *)
U32(n) == << n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>

(* Natural number of a uint32 whose first byte is below 128 *)
Nat32(u) == ((u[1] * 256 + u[2]) * 256 + u[3]) * 256 + u[4]

Zero32 == <<0, 0, 0, 0>>

Str(b) == U32(Len(b)) \o b

Drop(b, n) == SubSeq(b, n + 1, Len(b))
Take(b, n) == SubSeq(b, 1, n)

(* Prefix of zero bytes removed *)
RECURSIVE StripZeros(_)
StripZeros(b) == IF b # <<>> /\ Head(b) = 0 THEN StripZeros(Tail(b)) ELSE b

(* mpint of the non-negative number with big endian bytes b *)
Mpint(b) == LET n == StripZeros(b) IN
            Str(IF n # <<>> /\ Head(n) >= 128 THEN <<0>> \o n ELSE n)

IsAscii(b) == \A i \in 1..Len(b) : b[i] < 128

(* RFC 3629 *)
Cont(x) == x >= 128 /\ x < 192
RECURSIVE IsUtf8(_)
IsUtf8(b) ==
    \/ b = <<>>
    \/ /\ b[1] < 128
       /\ IsUtf8(Drop(b, 1))
    \/ /\ Len(b) >= 2 /\ b[1] >= 194 /\ b[1] <= 223 /\ Cont(b[2])
       /\ IsUtf8(Drop(b, 2))
    \/ /\ Len(b) >= 3 /\ b[1] >= 224 /\ b[1] <= 239 /\ Cont(b[2]) /\ Cont(b[3])
       /\ (b[1] = 224 => b[2] >= 160)
       /\ (b[1] = 237 => b[2] < 160)
       /\ IsUtf8(Drop(b, 3))
    \/ /\ Len(b) >= 4 /\ b[1] >= 240 /\ b[1] <= 244 /\ Cont(b[2]) /\ Cont(b[3]) /\ Cont(b[4])
       /\ (b[1] = 240 => b[2] >= 144)
       /\ (b[1] = 244 => b[2] < 144)
       /\ IsUtf8(Drop(b, 4))

Comma == 44
(* RFC 4251 section 5: comma separated, names are not empty, US-ASCII. *)
IsNameList(b) ==
    /\ IsAscii(b)
    /\ b # <<>> =>
        /\ b[1] # Comma
        /\ b[Len(b)] # Comma
        /\ \A i \in 1..(Len(b) - 1) : ~(b[i] = Comma /\ b[i + 1] = Comma)

RECURSIVE Names(_)
Names(b) ==
    IF b = <<>> THEN <<>>
    ELSE IF \E i \in 1..Len(b) : b[i] = Comma
         THEN LET i == CHOOSE i \in 1..Len(b) : b[i] = Comma /\ \A j \in 1..(i - 1) : b[j] # Comma
              IN <<Take(b, i - 1)>> \o Names(Drop(b, i))
         ELSE <<b>>

(* Result of a parser: whether it succeeded, the value and the rest *)
Fail == [ok |-> FALSE, v |-> <<>>, r |-> <<>>]
Got(v, r) == [ok |-> TRUE, v |-> v, r |-> r]

ParseStr(b) ==
    IF Len(b) < 4 \/ b[1] >= 128 THEN Fail
    ELSE LET n == Nat32(b) IN
         IF n > Len(b) - 4 THEN Fail
         ELSE Got(SubSeq(b, 5, 4 + n), Drop(b, 4 + n))

=============================================================================
