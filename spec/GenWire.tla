------------------------------- MODULE GenWire ------------------------------
(* Values and byte strings for the codec of the real library, at random.     *)
(* N: how many values per message, OUT: the file to write.                   *)
EXTENDS Wire, Json, IOUtils, SequencesExt

VARIABLE x

N == atoi(IOEnv.N)
Big == IOEnv.BIG = "1"

Pick(s) == s[RandomElement(1..Len(s))]
Chance(p) == RandomElement(1..100) <= p

Some(z, n) == [i \in 1..n |-> RandomElement(0..255)]
Lens == <<0, 0, 1, 1, 2, 3, 4, 5, 7, 8, 16, 20, 31, 32, 33, 64, 65>>
LongLens == <<127, 128, 129, 255, 256, 257, 300>>
AnyLen(z) == IF Chance(6) THEN Pick(LongLens) ELSE Pick(Lens)

Ascii(z, n) == [i \in 1..n |-> RandomElement(0..127)]
GoodUtf8 == << <<>>, <<97>>, <<97, 0, 98>>, <<194, 128>>, <<223, 191>>, <<224, 160, 128>>, <<237, 159, 191>>, <<238, 128, 128>>,
               <<239, 191, 191>>, <<240, 144, 128, 128>>, <<244, 143, 191, 191>>, <<97, 195, 169, 98>>, <<226, 130, 172, 33>> >>
BadUtf8 == << <<128>>, <<191, 97>>, <<192, 128>>, <<193, 191>>, <<194>>, <<194, 97>>, <<224, 159, 191>>, <<224, 160>>, <<237, 160, 128>>,
              <<237, 191, 191>>, <<240, 143, 191, 191>>, <<240, 144, 128>>, <<244, 144, 128, 128>>, <<245, 128, 128, 128>>, <<255>>,
              <<97, 255, 98>>, <<254, 97>>, <<97, 128>> >>
GoodNames == << <<>>, <<97>>, <<97, 44, 98>>, B("curve25519-sha256"), B("a,bb,ccc"), B("none"), B("x@y.z,w"), <<0>>, <<127, 44, 0>>, <<32, 44, 32>> >>
BadNames == << <<44>>, <<44, 97>>, <<97, 44>>, <<97, 44, 44, 98>>, <<128>>, <<97, 44, 200>>, <<44, 44>>, <<97, 44, 98, 44>>, <<255, 44, 97>> >>
U32s == << <<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 0, 0, 255>>, <<0, 0, 1, 0>>, <<0, 0, 255, 255>>, <<0, 1, 0, 0>>, <<1, 2, 3, 4>>, <<127, 255, 255, 255>>,
           <<128, 0, 0, 0>>, <<255, 255, 255, 255>>, <<255, 255, 255, 254>> >>
Reasons == << <<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 0, 0, 2>>, <<0, 0, 0, 3>>, <<0, 0, 0, 4>>, <<0, 0, 0, 5>>, <<1, 0, 0, 1>>, <<254, 0, 0, 4>> >>
Mpints == << <<>>, <<0>>, <<0, 0, 0>>, <<1>>, <<127>>, <<128>>, <<255>>, <<0, 127>>, <<0, 128>>, <<0, 0, 255, 0>>, <<128, 0>>, <<1, 0, 0>> >>
Signals == << "ABRT", "ALRM", "FPE", "HUP", "ILL", "INT", "KILL", "PIPE", "QUIT", "SEGV", "TERM", "USR1", "USR2" >>
Mpint_(z) == CASE Chance(50) -> Pick(Mpints) [] OTHER -> Some(z, Pick(<<31, 32, 33, 48>>))

Value(fd, z) ==
  CASE fd.n = "signal" /\ Chance(70) -> (IF Chance(80) THEN B(Pick(Signals)) ELSE Pick(<<B("KIL"), B("KILLS"), B("sig@x"), B("kill")>>))
    [] fd.n = "reason" /\ Chance(70) -> Pick(Reasons)
    [] fd.k = "u32" -> IF Chance(60) THEN Pick(U32s) ELSE Some(z, 4)
    [] fd.k = "bool" -> Chance(50)
    [] fd.k = "raw16" -> Some(z, 16)
    [] fd.k \in {"str", "rest"} -> Some(z, AnyLen(z))
    [] fd.k = "method" -> Pick(<<B("keyboard-interactive"), <<>>, B("non"), B("nonee"), B("public"), B("publickeyx"), B("passwor"), B("hostbase"), B("None"), <<255>> >>)
    [] fd.k = "utf8" -> IF Chance(70) THEN Pick(GoodUtf8) ELSE Pick(GoodUtf8) \o Pick(GoodUtf8) \o Ascii(z, AnyLen(z))
    [] fd.k = "ascii" -> Ascii(z, AnyLen(z))
    [] fd.k = "names" -> IF Chance(80) THEN Pick(GoodNames) ELSE Pick(<<B("aes"), B("zz")>>) \o <<44>> \o Pick(<<B("aes"), B("zz"), B("chacha20")>>)
    [] fd.k = "hostkey" -> <<Some(z, Pick(Lens)), Some(z, Pick(Lens)), Some(z, Pick(Lens))>>
    [] fd.k = "sigblob" -> <<Some(z, Pick(Lens)), Mpint_(z), Mpint_(z)>>

(* A value that the layout forbids, where there is one *)
BadValue(fd, z) ==
  CASE fd.k = "utf8" -> Pick(BadUtf8)
    [] fd.k = "ascii" -> Pick(<< <<128>>, <<97, 255>>, <<200, 97, 97>> >>)
    [] fd.k = "names" -> Pick(BadNames)
    [] OTHER -> Value(fd, z)

CanBeBad(f) == \E i \in 1..Len(f) : f[i].k \in {"utf8", "ascii", "names"}

Values(f, z) == LET g == ValueFields(f) IN [i \in 1..Len(g) |-> Value(g[i], z + i)]
BadValues(f, z) ==
  LET g == ValueFields(f)
      j == RandomElement({i \in 1..Len(g) : g[i].k \in {"utf8", "ascii", "names"}})
  IN [i \in 1..Len(g) |-> IF i = j THEN BadValue(g[i], z + i) ELSE Value(g[i], z + i)]

(* Per message: values and, where fields can be wrong, encodings with a wrong one *)
MsgCases ==
  [k \in 1..(N * Len(Messages)) |->
     LET m == Messages[((k - 1) % Len(Messages)) + 1] IN
     [k |-> "val", t |-> m.t, v |-> Values(m.f, k)]]
BadMsgCases ==
  LET rows == SelectSeq(Messages, LAMBDA m : CanBeBad(m.f)) IN
  [k \in 1..(N * Len(rows)) |->
     LET m == rows[((k - 1) % Len(rows)) + 1] IN
     [k |-> "raw", t |-> m.t, b |-> Encode(m.t, BadValues(m.f, k))]]
ReqCases ==
  [k \in 1..(N * Len(Requests)) |->
     LET m == Requests[((k - 1) % Len(Requests)) + 1] IN
     [k |-> "req", t |-> m.t, v |-> Values(m.f, k)]]
BadReqCases ==
  LET rows == SelectSeq(Requests, LAMBDA m : CanBeBad(m.f)) IN
  [k \in 1..(N * Len(rows)) |->
     LET m == rows[((k - 1) % Len(rows)) + 1] IN
     [k |-> "rawreq", t |-> m.t, name |-> m.name, b |-> EncodeReq(m.t, BadValues(m.f, k))]]

(* Known names with anything behind, unknown names *)
OtherReqCases ==
  [k \in 1..(2 * Len(Requests)) |->
     LET m == Requests[((k - 1) % Len(Requests)) + 1]
         m2 == Pick(Requests) IN
     [k |-> "rawreq", t |-> m.t, name |-> m.name, b |-> EncodeReq(m2.t, Values(m2.f, k))]]

(* All message numbers *)
NumCases == [k \in 0..255 |-> [k |-> "raw", t |-> "number", b |-> <<k>> \o (IF Chance(50) THEN <<>> ELSE Some(k, AnyLen(k)))]]

(* Signatures whose numbers are not written in the shortest way *)
SigCases ==
  [k \in 1..(2 * N) |->
     LET r == Pick(Mpints)
         s == Pick(Mpints)
         sig == Str(Some(k, 3)) \o Str(Str(r) \o Str(s))
     IN [k |-> "raw", t |-> "EcdhReply", b |-> <<31>> \o Str(Str(B("a")) \o Str(B("b")) \o Str(B("c"))) \o Str(Some(k, 2)) \o Str(sig)]]

StrCases ==
  [k \in 1..(10 * N) |->
     [k |-> "str", t |-> "", b |->
        CASE Chance(30) -> Str(Some(k, AnyLen(k))) \o Some(k, Pick(<<0, 0, 1, 5>>))
          [] Chance(30) -> Pick(GoodNames) \o <<44>> \o Pick(GoodNames)
          [] Chance(30) -> Pick(BadNames) \o Pick(GoodNames)
          [] Chance(30) -> Ascii(k, AnyLen(k))
          [] Chance(50) -> Pick(U32s) \o Some(k, AnyLen(k))
          [] OTHER -> Some(k, AnyLen(k))]]

SignCases == [k \in 1..N |-> [k |-> "sign", t |-> "", v |-> [i \in 1..5 |-> Some(k, AnyLen(k))]]]

BigCases ==
  IF ~Big THEN <<>> ELSE
  << [k |-> "val", t |-> "Data", v |-> <<<<0, 0, 0, 1>>, [i \in 1..65535 |-> i % 251]>>],
     [k |-> "val", t |-> "Ignore", v |-> <<[i \in 1..65536 |-> i % 249]>>],
     [k |-> "val", t |-> "AuthPassword", v |-> <<<<97>>, <<98>>, [i \in 1..70000 |-> i % 255]>>],
     [k |-> "req", t |-> "Exec", v |-> <<[i \in 1..66000 |-> i % 253]>>] >>

Init == x = 0
Next ==
  /\ x = 0
  /\ x' = 1
  /\ ndJsonSerialize(IOEnv.OUT, MsgCases \o BadMsgCases \o ReqCases \o BadReqCases \o OtherReqCases \o [i \in 1..256 |-> NumCases[i - 1]]
                                \o SigCases \o StrCases \o SignCases \o BigCases)
=============================================================================
