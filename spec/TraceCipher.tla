----------------------------- MODULE TraceCipher ----------------------------
(* Judges real ciphers (C21) by Cipher. "at" says under which sequence       *)
(* number, counted from the first, an independent implementation gives the   *)
(* same bytes (-1: under none that was tried).                               *)
EXTENDS Cipher, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Ev == Traces[tid].trace[l]
Len_ == Len(Traces[tid].trace)
Chk(why, ok) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", tid, l, {"C21"}, why>>) /\ FALSE

Init == CInit /\ tid \in 1..Len(Traces) /\ l = 1
Step ==
  /\ l <= Len_
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ CASE Ev.e = "sizes" -> Chk("wrong size of the tag", Ev.tag = 16) /\ UNCHANGED cvars
       [] Ev.e = "panic" -> Chk("panics: " \o Ev.of, FALSE) /\ UNCHANGED cvars
       [] Ev.e = "seal" -> /\ Chk("sealed under another sequence number or not as specified", Ev.at = NextSeal)
                           /\ Seal(Ev.n)
       [] Ev.e = "len" -> /\ Chk("the length is not decrypted under the next sequence number", Ev.at = NextOpen)
                          /\ UNCHANGED cvars
       [] Ev.e = "offer" ->
            /\ Chk("opening panics", Ev.r # "panic")
            /\ IF Accepts(Ev.i, Ev.kind)
               THEN /\ Chk("the genuine next packet is rejected", Ev.r = "ok")
                    /\ Chk("the packet is not restored", Ev.restored)
               ELSE /\ Chk("accepted although it is not the genuine next packet: " \o Ev.kind, Ev.r = "err")
                    /\ Chk("decrypted although it is rejected", Ev.untouched)
            /\ Offer(Ev.i, Ev.kind)
       [] Ev.e = "alts" ->
            /\ Chk("a packet with one bit changed is accepted", Ev.ok = 0)
            /\ Chk("decrypted although it is rejected", Ev.touched = 0)
            /\ UNCHANGED cvars
Finished == l > Len_ /\ PrintT(<<"DONE", tid>>) /\ UNCHANGED <<cvars, tid, l>>
Next == Step \/ Finished
=============================================================================
