----------------------------- MODULE TracePacket ----------------------------
(* Judges framing and unframing by the real library (C19).                   *)
EXTENDS Packet, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Ev == Traces[tid].trace[l]
Len_ == Len(Traces[tid].trace)
Chk(why, ok) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", tid, l, {"C19"}, why>>) /\ FALSE
Elems(s) == {s[i] : i \in 1..Len(s)}

Init == tid \in 1..Len(Traces) /\ l = 1
Step ==
  /\ l <= Len_
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ CASE Ev.e = "wrap" ->
            /\ Chk("framing panics", Ev.r = "ok")
            /\ Chk("not a right framing of the payload", Framed(Ev.p, Ev.bs, Ev.rule, Ev.len, Ev.pad))
            /\ Chk("the packet does not hold the payload", Ev.agree)
            /\ Chk("unframing does not return the payload: " \o Ev.back, Ev.back = "same")
       [] Ev.e = "unwrap" ->
            /\ Chk("unframing panics", Ev.panic = <<>>)
            /\ Chk("unframing accepts other packets than it should",
                   Elems(Ev.ok) = {x \in 0..255 : Accepts(Ev.len, x, Ev.bs, Ev.rule)})
            /\ Chk("unframing returns another payload", Ev.wrong = <<>>)
Finished == l > Len_ /\ PrintT(<<"DONE", tid>>) /\ UNCHANGED <<tid, l>>
Next == Step \/ Finished
=============================================================================
