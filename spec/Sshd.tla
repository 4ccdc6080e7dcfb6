-------------------------------- MODULE Sshd --------------------------------
(***************************************************************************)
(* The example daemon as its clients see it. It runs one test program, the  *)
(* probe, whose arguments say what it does:                                 *)
(*   o=N, e=N: N bytes to its standard output or error; c: copies its       *)
(*   input to its output until the input ends; x=N: exits with N; k=N: ends *)
(*   itself by signal N; s=N: sleeps; anything else: nothing.               *)
(* Without arguments (as the shell) it copies its input and exits with 7.   *)
(***************************************************************************)
EXTENDS Scp

Whitespace == {9, 10, 12, 13, 32}

(* The arguments of a command: its maximal parts without white space *)
RECURSIVE Args_(_, _)
Args_(b, cur) ==
  IF b = <<>> THEN IF cur = <<>> THEN <<>> ELSE <<cur>>
  ELSE IF b[1] \in Whitespace THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o Args_(Tail(b), <<>>)
  ELSE Args_(Tail(b), Append(cur, b[1]))
Args(b) == Args_(b, <<>>)

Runnable(cmd) ==
  LET a == Args(cmd) IN
  /\ a # <<>>
  /\ a[1] = B("probe")
  /\ \A i \in 1..Len(a) : ~HasByte(a[i], 0)

(* What an argument tells the probe: <<letter, number>> *)
Order(a) ==
  IF a = B("c") THEN <<"c", 0>>
  ELSE IF Len(a) > 2 /\ Len(a) < 12 /\ a[2] = 61 /\ IsDigits(Drop(a, 2))
  THEN <<CASE a[1] = 111 -> "o" [] a[1] = 101 -> "e" [] a[1] = 120 -> "x" [] a[1] = 107 -> "k" [] a[1] = 115 -> "s" [] OTHER -> "", Decimal(Drop(a, 2))>>
  ELSE <<"", 0>>

Fr(op, n) == [op |-> op, n |-> n, a |-> <<>>]
ArgFr(a) == [op |-> "a", n |-> 0, a |-> a]

(* Outputs and exit status of the probe given its input. status -1: a signal *)
RECURSIVE Obey(_, _, _)
Obey(as, input, res) ==
  IF as = <<>> THEN res
  ELSE LET o == Order(as[1]) IN
       CASE o[1] = "o" -> Obey(Tail(as), input, [res EXCEPT !.out = Append(@, Fr("o", o[2]))])
         [] o[1] = "e" -> Obey(Tail(as), input, [res EXCEPT !.err = Append(@, Fr("e", o[2]))])
         [] o[1] = "c" -> Obey(Tail(as), 0, [res EXCEPT !.out = @ \o (IF input > 0 THEN <<Fr("i", input)>> ELSE <<>>) \o <<Fr("I", 0)>>])
         [] o[1] = "x" -> [res EXCEPT !.status = o[2]]
         [] o[1] = "k" -> [res EXCEPT !.status = 0 - 1]
         [] OTHER -> Obey(Tail(as), input, res)

Result(cmd, input) ==
  LET a == Args(cmd) IN
  IF Len(a) = 1 THEN Obey(<<B("c"), B("x=7")>>, input, [out |-> <<ArgFr(a[1])>>, err |-> <<>>, status |-> 0])
  ELSE Obey(Tail(a), input, [out |-> [i \in 1..Len(a) |-> ArgFr(a[i])], err |-> <<>>, status |-> 0])
ShellResult(input) == Obey(<<B("c"), B("x=7")>>, input, [out |-> <<>>, err |-> <<>>, status |-> 0])

(* It waits for the end of its input before it ends *)
Reads(cmd) == LET a == Args(cmd) IN Len(a) = 1 \/ \E i \in 2..Len(a) : a[i] = B("c") /\ \A j \in 2..(i - 1) : Order(a[j])[1] \notin {"x", "k"}

-----------------------------------------------------------------------------
(* Clients. ph: tcp (not keyed), auth, open, evil (did something wrong: all  *)
(* bets are off for it), gone.                                               *)

NewClient(upto) == [ph |-> IF upto = "full" THEN "auth" ELSE "tcp", chans |-> <<>>]

Wrong == {"none", "password", "other-user", "other-service", "other-key", "other-session", "wrong-key", "bad-r", "bad-s", "last-bit",
          "short-signature", "long-signature", "no-signature", "zero-signature", "short-key", "long-key", "no-key", "other-algorithm", "probe-other"}
AuthAnswer(how) == CASE how = "good" -> "success" [] how = "probe" -> "pkok" [] OTHER -> "failure"
AfterAuth(k, how) == IF how = "good" THEN [k EXCEPT !.ph = "open"] ELSE k

NewChan(win) == [st |-> "open", win |-> win, kind |-> "", cmd |-> <<>>, fed |-> 0, eof |-> FALSE]
AfterOpen(k, n, win) == [k EXCEPT !.chans = (n :> NewChan(win)) @@ @]

(* shell: probe, missing or none *)
Starts(kind, cmd, shell) == IF kind = "exec" THEN Runnable(cmd) ELSE shell = "probe"
AfterRequest(k, n, kind, cmd, shell) ==
  IF k.chans[n].st = "open" /\ Starts(kind, cmd, shell)
  THEN [k EXCEPT !.chans[n].st = "run", !.chans[n].kind = kind, !.chans[n].cmd = cmd]
  ELSE k
Answer(k, n, kind, cmd, shell) == IF k.chans[n].st = "open" /\ Starts(kind, cmd, shell) THEN "success" ELSE "failure"

AfterData(k, n, m) == IF k.chans[n].st = "run" /\ ~k.chans[n].eof THEN [k EXCEPT !.chans[n].fed = @ + m] ELSE k
AfterEof(k, n) == [k EXCEPT !.chans[n].eof = TRUE]
AfterClose(k, n) == [k EXCEPT !.chans[n].st = "closed"]

(* The process of channel n comes to an end by itself *)
WillEnd(k, n) ==
  LET ch == k.chans[n] IN
  ch.st = "run" /\ (ch.eof \/ (ch.kind = "exec" /\ ~Reads(ch.cmd)))
ResultOf(ch) == IF ch.kind = "exec" THEN Result(ch.cmd, ch.fed) ELSE ShellResult(ch.fed)
=============================================================================
