------------------------------ MODULE TraceScp ------------------------------
(* Judges recorded runs of the real nora_scp (C22, C23) by Scp.              *)
EXTENDS Scp, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, r, s
vars == <<tid, l, r, s>>
Ev == Traces[tid].trace[l]
Len_ == Len(Traces[tid].trace)
Chk(labels, why, ok) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", tid, l, labels, why>>) /\ FALSE
Elems(q) == {q[i] : i \in 1..Len(q)}

Nil == [ph |-> "none"]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ r = Nil /\ s = Nil

Ended(ph) == CASE ph = "ok" -> {"ok"} [] ph = "bad" -> {"fail"} [] ph = "doomed" -> {"run", "fail"} [] OTHER -> {"run"}
Status(labels, ph, st) ==
  Chk(labels, CASE ph = "ok" -> "everything was transferred, but it is not exited with success: " \o st
                [] ph = "bad" -> "the transfer failed, but it does not exit with failure: " \o st
                [] OTHER -> "the transfer goes on, but it exited: " \o st, st \in Ended(ph))

(* What the receiver left behind *)
FilesOk(fs) ==
  /\ Chk({"C22"}, "created or changed a file outside its targets", \A f \in Elems(fs) : f.name \in Touched(r))
  /\ \A n \in Touched(r) :
       LET k == LastUse(r, n)
           w == r.files[k]
       IN w.done =>
          /\ Chk({"C22", "C23"}, "a completed file is missing or unchanged", \E f \in Elems(fs) : f.name = n)
          /\ Chk({"C22", "C23"}, "a completed file has other contents than were sent",
                 \A f \in Elems(fs) : f.name = n => f.n = w.n /\ (w.n = 0 \/ w.start \in Elems(f.at)))

(* Sender output: items of the driver. Mode bits are not judged. *)
HeadOk(b, h) ==
  LET tail == <<Space>> \o Digits(h.n) \o <<Space>> \o h.name \o <<Newline>> IN
  /\ Len(b) = 5 + Len(tail)
  /\ b[1] = 67
  /\ \A i \in 2..5 : b[i] \in 48..55
  /\ Drop(b, 5) = tail
RECURSIVE OutOk(_, _)
OutOk(got, want) ==
  CASE want = <<>> -> got = <<>>
    [] want[1].k = "head" -> got # <<>> /\ got[1].k = "line" /\ HeadOk(got[1].b, want[1]) /\ OutOk(Tail(got), Tail(want))
    [] want[1].k = "data" -> got # <<>> /\ got[1].k = "file" /\ got[1].n = want[1].n /\ want[1].f \in Elems(got[1].f) /\ OutOk(Tail(got), Tail(want))
    [] want[1].k = "part" -> got = <<>> \/ (Len(got) = 1 /\ got[1].k = "raw")
    [] want[1].k = "term" -> got # <<>> /\ got[1].k = "term" /\ OutOk(Tail(got), Tail(want))

Step ==
  /\ l <= Len_
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ CASE Ev.e = "recv" -> r' = Receiver(Ev.dir, Ev.targets, Elems(Ev.blocked)) /\ s' = s
       [] Ev.e = "send" -> s' = Sender(Ev.files) /\ r' = r
       [] Ev.e = "feed" /\ r # Nil -> r' = RItems(r, Ev.items) /\ s' = s
       [] Ev.e = "feed" ->   \* it may have read the file before it shrank
            /\ \E x \in {s} \union (IF s.ph = "header" THEN {[s EXCEPT !.cur[s.i] = s.out[Len(s.out)].n]} ELSE {}) : s' = SBytes(x, Ev.items[1].b)
            /\ r' = r
       [] Ev.e = "resize" -> s' = SResize(s, Ev.f, Ev.n) /\ r' = r
       [] Ev.e = "eof" -> IF r # Nil THEN r' = REof(r) /\ s' = s ELSE s' = SEof(s) /\ r' = r
       [] Ev.e = "quiet" /\ r # Nil ->
            /\ UNCHANGED <<r, s>>
            /\ Chk({"C22"}, "acknowledged too early, too often or too late", Ev.acks = r.acks)
            /\ Chk({"C22"}, "sent something else than acknowledgements", Ev.other = 0 \/ r.ph \in {"bad", "doomed"})
            /\ Status({"C22"}, r.ph, Ev.st)
       [] Ev.e = "quiet" ->
            /\ UNCHANGED <<r, s>>
            /\ Chk({"C23"}, "not the header, contents and terminator that are due", OutOk(Ev.out, s.out))
            /\ Status({"C23"}, s.ph, Ev.st)
       [] Ev.e = "files" -> UNCHANGED <<r, s>> /\ FilesOk(Ev.files)
       [] Ev.e = "pair" ->
            /\ UNCHANGED <<r, s>>
            /\ Chk({"C23", "C22"}, "sender and receiver do not finish: " \o Ev.st[1] \o " " \o Ev.st[2], Ev.st = Ev.want)
            /\ Chk({"C23", "C22"}, "files are not transferred unchanged", Ev.same)

Finished == l > Len_ /\ PrintT(<<"DONE", tid>>) /\ UNCHANGED vars
Next == Step \/ Finished
=============================================================================
