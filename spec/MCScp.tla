-------------------------------- MODULE MCScp -------------------------------
(***************************************************************************)
(* Sender and receiver connected through two queues, with a link that may   *)
(* break at any point and a file that may change once. C23: nothing deadlocks, both end with success and    *)
(* the receiver has every file as it was, or the link broke and whoever is  *)
(* not finished fails. Lock step: at most one message is under way.         *)
(***************************************************************************)
EXTENDS Scp

CONSTANTS FileNames, Sizes, MaxFiles
SomeNames == {<<97>>, <<97, 32, 98>>}
ManyNames == {<<97>>, <<97, 32, 98>>, <<195, 169>>}

VARIABLES s, r, toR, toS, changed, broken
vars == <<s, r, toR, toS, changed, broken>>

FileLists == UNION {[1..k -> [name : FileNames, n : Sizes]] : k \in 0..MaxFiles}

Items(x, fs) ==
  CASE x.k = "head" -> <<[k |-> "b", b |-> B("C0644 ") \o Digits(x.n) \o <<Space>> \o x.name \o <<Newline>>]>>
    [] x.k = "data" -> IF x.n = 0 THEN <<>> ELSE <<[k |-> "r", n |-> x.n]>>
    [] x.k = "part" -> <<>>
    [] x.k = "term" -> <<[k |-> "b", b |-> <<0>>]>>

RECURSIVE AllItems(_, _)
AllItems(o, fs) == IF o = <<>> THEN <<>> ELSE Items(o[1], fs) \o AllItems(Tail(o), fs)

Init ==
  /\ \E fs \in FileLists : s = Sender(fs)
  /\ r = Receiver(TRUE, <<>>, {})
  /\ toR = <<>> /\ toS = <<0>> /\ changed = FALSE /\ broken = FALSE

(* Acknowledgements appear as the receiver makes them *)
Acks(n) == [i \in 1..n |-> 0]

Sends == /\ ~broken /\ toS # <<>> /\ ~SOver(s)
         /\ s' = SByte(s, toS[1])
         /\ toS' = Tail(toS)
         /\ toR' = toR \o AllItems(Drop(s'.out, Len(s.out)), s.files)
         /\ UNCHANGED <<r, changed, broken>>
Takes == /\ ~broken /\ toR # <<>> /\ ~Over(r)
         /\ r' = RItem(r, toR[1])
         /\ toR' = Tail(toR)
         /\ toS' = toS \o Acks(r'.acks - r.acks)
         /\ UNCHANGED <<s, changed, broken>>
Hangs == /\ ~broken /\ SOver(s) /\ toR = <<>> /\ ~Over(r)
         /\ r' = REof(r)
         /\ UNCHANGED <<s, toR, toS, changed, broken>>
Gone  == /\ ~broken /\ Over(r) /\ toS = <<>> /\ ~SOver(s)
         /\ s' = SEof(s)
         /\ UNCHANGED <<r, toR, toS, changed, broken>>
Change == /\ ~broken /\ ~SOver(s) /\ ~changed
          /\ \E k \in 1..Len(s.files), n \in Sizes : s' = SResize(s, k, n)
          /\ changed' = TRUE
          /\ UNCHANGED <<r, toR, toS, broken>>
Break == /\ ~broken
         /\ broken' = TRUE
         /\ s' = SEof(s) /\ r' = REof(r)
         /\ UNCHANGED <<toR, toS, changed>>
Next == Sends \/ Takes \/ Hangs \/ Gone \/ Change \/ Break
Spec == Init /\ [][Next]_vars /\ WF_vars(Sends \/ Takes \/ Hangs \/ Gone)

BothOk == s.ph = "ok" /\ r.ph = "ok"
AllThere ==
  /\ Len(r.files) = Len(s.files)
  /\ \A i \in 1..Len(s.files) : r.files[i].done /\ r.files[i].name = s.files[i].name /\ (changed \/ r.files[i].n = s.files[i].n)
Faithful == BothOk => AllThere
SenderKnows == s.ph = "ok" => AllThere
LockStep == Len(toS) <= 1
NoDeadlock == (~ENABLED (Sends \/ Takes \/ Hangs \/ Gone) /\ ~broken) => BothOk \/ (changed /\ s.ph = "bad" /\ r.ph = "bad")
FailsOnlyIfBroken == s.ph = "bad" => broken \/ changed
OnlyInside == \A n \in Touched(r) : Inside(n)
Ends == <>(broken \/ (SOver(s) /\ Over(r)))
NeverBoth == ~(BothOk /\ Len(s.files) = MaxFiles)
=============================================================================
