------------------------------ MODULE TraceWire -----------------------------
(* Judges what the real codec did (C17, C18) by the layouts of Wire.         *)
EXTENDS Wire, Terms, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l

Ev == Traces[tid].trace[l]
Len_ == Len(Traces[tid].trace)

Chk(labels, why, ok) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", tid, l, labels, why>>) /\ FALSE

Elems(s) == {s[i] : i \in 1..Len(s)}

(* An encoder that was given buffers of many sizes *)
Encoder(e, want, labels) ==
  /\ Chk(labels, "encoding panics", e.panic = <<>>)
  /\ Chk(labels, "encoding is not the layout of the RFC", Elems(e.outs) \subseteq {want})
  /\ Chk(labels, "encoding fails for a buffer that is large enough", \A n \in Elems(e.none) : n < Len(want))
  /\ Chk(labels, "encoding succeeds for a buffer that is too small", \A n \in Elems(e.sizes) : n < Len(want) => n \in Elems(e.none))
  /\ Chk(labels, "encoding miscounts the rest of the buffer", e.rest)

SignBytes(v) ==
  Str(v[1]) \o <<50>> \o Str(v[2]) \o Str(v[3]) \o Str(B("publickey")) \o <<1>> \o Str(v[4]) \o Str(v[5])

(* Valid encodings must come back (C17 as well) *)
Parsed(e, want) ==
  LET labels == IF want.t = "err" THEN {"C18"} ELSE {"C17", "C18"} IN
  /\ Chk(labels, "parsing panics", e.t # "panic")
  /\ Chk(labels, IF want.t = "err" THEN "input that is not well-formed is accepted as " \o e.t ELSE "a well-formed " \o want.t \o " is taken for " \o e.t, e.t = want.t)
  /\ Chk(labels, "a " \o want.t \o " is parsed to another value", Canon(e.t, e.v) = Canon(want.t, want.v))

Result(e, ok, v) ==
  /\ Chk({"C18"}, "parsing panics", e.r # "panic")
  /\ Chk({"C18"}, "accepted or rejected wrongly: " \o e.e, (e.r = "ok") = ok)
  /\ ok => Chk({"C18"}, "parsed to another value: " \o e.e, e.v = v)

Init == tid \in 1..Len(Traces) /\ l = 1

Step ==
  /\ l <= Len_
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ CASE Ev.e = "enc" -> Encoder(Ev, Encode(Ev.t, Ev.v), {"C17"})
       [] Ev.e = "encreq" -> /\ Encoder(Ev, EncodeReq(Ev.t, Ev.v), {"C17"})
                             /\ Chk({"C17"}, "wrong name of the request", Ev.name = ReqOf(Ev.t).name)
       [] Ev.e = "parse" -> Parsed(Ev, Parse(Ev.b))
       [] Ev.e = "parsereq" -> Parsed(Ev, ParseReq(Ev.name, Ev.b))
       [] Ev.e = "string" -> LET p == ParseStr(Ev.b) IN
                             /\ Result(Ev, p.ok, p.v)
                             /\ p.ok => Chk({"C18"}, "wrong rest after a string", Ev.rest = p.r)
       [] Ev.e = "names" -> /\ Result(Ev, IsNameList(Ev.b), Ev.b)
                            /\ Ev.r = "ok" => Chk({"C18"}, "wrong names of a name list", Ev.items = Names(Ev.b))
       [] Ev.e = "ascii" -> Result(Ev, IsAscii(Ev.b), Ev.b)
       [] Ev.e = "sign" -> Encoder(Ev, SignBytes(Ev.v), {"C17", "C03"})

Finished == l > Len_ /\ PrintT(<<"DONE", tid>>) /\ UNCHANGED <<tid, l>>
Next == Step \/ Finished
=============================================================================
