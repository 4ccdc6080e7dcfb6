------------------------------ MODULE GenCipher -----------------------------
(* Operation sequences for real ciphers: random walks of Cipher.             *)
EXTENDS Cipher, Json, IOUtils, TLC

VARIABLES script, start, dir, goal
gvars == <<cvars, script, start, dir, goal>>

Pick(s) == s[RandomElement(1..Len(s))]
Chance(p) == RandomElement(1..100) <= p

Starts == << <<0, 0, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 0, 3>>, <<0, 0, 0, 0, 0, 0, 0, 127>>, <<0, 0, 0, 0, 0, 0, 0, 254>>, <<0, 0, 0, 0, 0, 0, 255, 253>>, <<0, 0, 0, 0, 0, 255, 255, 254>>,
             <<0, 0, 0, 0, 127, 255, 255, 254>>, <<0, 0, 0, 0, 255, 255, 255, 253>>, <<0, 0, 0, 0, 255, 255, 255, 255>>, <<0, 0, 0, 1, 0, 0, 0, 0>>,
             <<0, 0, 0, 255, 255, 255, 255, 254>>, <<127, 255, 255, 255, 255, 255, 255, 253>> >>
Sizes == << 0, 8, 8, 16, 24, 32, 56, 64, 72, 128, 1, 7, 255, 256, 1000 >>
BigSizes == << 32768, 35000, 65536 >>
KindSeq == << "length", "data", "tag", "short", "long", "zerotag", "swap", "plain", "otherdir", "otherkey", "otherseq", "random" >>

Init == /\ CInit
        /\ script = <<>>
        /\ start = Pick(Starts)
        /\ dir = Pick(<<"cs", "sc">>)
        /\ goal = RandomElement(10..atoi(IOEnv.GOAL))

More == Len(script) < goal
DoSeal(z) == LET n == IF Chance(3) THEN Pick(BigSizes) ELSE Pick(Sizes) IN
  Seal(n) /\ script' = Append(script, [op |-> "seal", n |-> n])
DoOffer(i, k) == Offer(i, k) /\ script' = Append(script, [op |-> "offer", i |-> i, kind |-> k])
DoBits == /\ NextOpen < Len(sealed)
          /\ sealed[NextOpen + 1].plain <= 24
          /\ script' = Append(script, [op |-> "allbits"])
          /\ UNCHANGED cvars

Walk ==
  /\ More
  /\ UNCHANGED <<start, dir, goal>>
  /\ LET c == RandomElement(1..100) IN
     CASE c <= 35 \/ sealed = <<>> -> DoSeal(c)
       [] c <= 65 /\ NextOpen < Len(sealed) -> DoOffer(NextOpen, "genuine")
       [] c <= 88 /\ NextOpen < Len(sealed) -> DoOffer(NextOpen, Pick(KindSeq))
       [] c <= 96 \/ ~(NextOpen < Len(sealed) /\ sealed[NextOpen + 1].plain <= 24) -> DoOffer(RandomElement(0..(Len(sealed) - 1)), IF Chance(80) THEN "genuine" ELSE Pick(KindSeq))
       [] OTHER -> DoBits

Done ==
  /\ ~More
  /\ goal > 0
  /\ Serialize(ToJson([name |-> "cipher", start |-> start, dir |-> dir, ops |-> script]) \o "\n", IOEnv.OUT,
               [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
  /\ goal' = 0
  /\ UNCHANGED <<cvars, script, start, dir>>

Next == Walk \/ Done
=============================================================================
