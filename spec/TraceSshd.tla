------------------------------ MODULE TraceSshd -----------------------------
(* Judges what clients of the real nora_sshd saw (C24) by Sshd.              *)
EXTENDS Sshd, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, shell, cl
vars == <<tid, l, shell, cl>>
Ev == Traces[tid].trace[l]
Len_ == Len(Traces[tid].trace)
Chk(why, ok) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", tid, l, {"C24"}, why>>) /\ FALSE

Init == tid \in 1..Len(Traces) /\ l = 1 /\ shell = "" /\ cl = <<>>

K == cl[Ev.c]
Bad == K.ph = "evil"
Set(k) == cl' = (Ev.c :> k) @@ cl


ResultOk(ch) ==
  LET want == ResultOf(ch)
      got == IF ch.kind = "exec" THEN Ev.out ELSE IF Ev.out = <<>> THEN <<[op |-> "none", n |-> 0, a |-> <<>>]>> ELSE Tail(Ev.out)
      first == IF ch.kind = "exec" \/ Ev.out = <<>> THEN TRUE ELSE Ev.out[1].op = "a"
      args(x) == SelectSeq(x, LAMBDA y : y.op = "a")
  IN
  /\ Chk("the session does not end: " \o Ev.r, Ev.r = "ok")
  /\ Chk("the program got other arguments than requested", first /\ args(got) = args(want.out))
  /\ Chk("the client did not get the standard output of the program (or the program not the client's input)", got = want.out)
  /\ Chk("the client did not get the standard error of the program", Ev.err = want.err)
  /\ Chk("no or a wrong exit status: " \o Ev.status,
         IF want.status < 0 THEN Ev.status \notin {"0", "none"} ELSE Ev.status = ToString(want.status))
  /\ Chk("no end-of-file, or something after the end", Ev.eof /\ ~Ev.late /\ ~Ev.over)

Step ==
  /\ l <= Len_
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ CASE Ev.e = "start" -> shell' = Ev.shell /\ cl' = cl /\ Chk("the daemon does not start", Ev.up)
       [] Ev.e # "start" ->
          /\ UNCHANGED shell
          /\ CASE Ev.e = "connect" -> Chk("a new client is not served: " \o Ev.r, Ev.r = "ok") /\ Set(NewClient(Ev.upto))
               [] Ev.e \in {"stall", "garbage"} -> Set([K EXCEPT !.ph = "evil"])
               [] Ev.e = "drop" -> Set([K EXCEPT !.ph = "gone"])
               [] Ev.e = "flood" -> cl' = cl
               [] Ev.e = "alive" -> cl' = cl /\ Chk("the daemon ended", Ev.r = "ok")
               [] Ev.e \notin {"connect", "stall", "garbage", "drop", "flood", "alive"} /\ Bad -> cl' = cl
               [] Ev.e = "auth" /\ ~Bad ->
                    /\ Chk("credentials " \o Ev.how \o " are answered with " \o Ev.r, Ev.r = AuthAnswer(Ev.how))
                    /\ Set(AfterAuth(K, Ev.how))
               [] Ev.e = "open" /\ ~Bad -> Chk("no channel: " \o Ev.r, Ev.r = "ok") /\ Set(AfterOpen(K, Ev.k, Ev.win))
               [] Ev.e \in {"exec", "shell"} /\ ~Bad ->
                    LET cmd == IF Ev.e = "exec" THEN Ev.cmd ELSE <<>> IN
                    /\ Chk("the request is answered with " \o Ev.r \o " instead of " \o Answer(K, Ev.k, Ev.e, cmd, shell),
                           \/ Ev.r = "closed" /\ WillEnd(K, Ev.k)
                           \/ Ev.r = IF Ev.reply THEN Answer(K, Ev.k, Ev.e, cmd, shell) ELSE "none")
                    /\ Set(AfterRequest(K, Ev.k, Ev.e, cmd, shell))
               [] Ev.e = "data" /\ ~Bad -> Chk("input is not taken: " \o Ev.r, Ev.r = "ok") /\ Set(AfterData(K, Ev.k, Ev.n))
               [] Ev.e = "eof" /\ ~Bad -> Set(AfterEof(K, Ev.k))
               [] Ev.e = "close" /\ ~Bad -> Set(AfterClose(K, Ev.k))
               [] Ev.e = "finish" /\ ~Bad -> ResultOk(K.chans[Ev.k]) /\ Set(AfterClose(K, Ev.k))

Finished == l > Len_ /\ PrintT(<<"DONE", tid>>) /\ UNCHANGED vars
Next == Step \/ Finished
=============================================================================
