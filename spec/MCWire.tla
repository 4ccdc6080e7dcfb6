-------------------------------- MODULE MCWire ------------------------------
(* The layouts themselves: for every message and request and small values of *)
(* every field, encodings are unambiguous, parse back and no prefix of one   *)
(* is another message of the same kind.                                      *)
EXTENDS Wire

CONSTANT Rich

Pool(fd) ==
  CASE fd.k = "u32" -> {<<0, 0, 0, 0>>, <<255, 0, 1, 2>>}
    [] fd.k = "bool" -> BOOLEAN
    [] fd.k = "raw16" -> {[i \in 1..16 |-> i]}
    [] fd.k = "str" -> IF Rich THEN {<<>>, <<0, 0, 0, 1>>, B("publickey")} ELSE {<<>>, <<0, 0, 0, 1>>}
    [] fd.k = "rest" -> {<<>>, <<0>>, <<0, 0, 0, 0>>}
    [] fd.k = "method" -> {<<>>, B("nonex")}
    [] fd.k = "utf8" -> {<<>>, <<195, 169>>}
    [] fd.k = "ascii" -> {<<>>, B("h")}
    [] fd.k = "names" -> {<<>>, B("a,b")}
    [] fd.k = "hostkey" -> {<<a, b, c>> : a \in {<<>>, <<1>>}, b \in {<<>>}, c \in {<<>>, <<0, 255>>}}
    [] fd.k = "sigblob" -> {<<a, r, s>> : a \in {<<>>, <<1>>}, r \in {<<>>, <<128>>, <<0, 1>>}, s \in {<<>>, <<255, 0>>}}

RECURSIVE Product(_)
Product(f) == IF f = <<>> THEN {<<>>} ELSE {<<a>> \o r : a \in Pool(f[1]), r \in Product(Tail(f))}

VARIABLES row, v, req
vars == <<row, v, req>>

Init ==
  /\ req \in BOOLEAN
  /\ v = <<>>
  /\ row \in 1..(IF req THEN Len(Requests) ELSE Len(Messages))

F_ == IF req THEN Requests[row].f ELSE Messages[row].f
Next == v = <<>> /\ v' \in Product(ValueFields(F_)) /\ UNCHANGED <<row, req>>
Spec == Init /\ [][Next]_vars

Full == Len(v) = Len(ValueFields(F_))
T == IF req THEN Requests[row].t ELSE Messages[row].t
Enc == IF req THEN EncodeReq(T, v) ELSE Encode(T, v)
P(b) == IF req THEN ParseReq(Requests[row].name, b) ELSE Parse(b)
HasRest == \E i \in 1..Len(F_) : F_[i].k = "rest"

RoundTrip == Full => /\ P(Enc).t = T
                     /\ Canon(T, P(Enc).v) = Canon(T, v)
OneMeaning == Full /\ ~req => Unambiguous(Enc)
NoPrefix == Full /\ ~HasRest => \A n \in 0..(Len(Enc) - 1) : P(Take(Enc, n)).t \notin {T}
NothingLeft == Full /\ ~HasRest => \A x \in {0, 1, 255} : P(Append(Enc, x)) = Bad
=============================================================================
