------------------------------- MODULE MCSshd -------------------------------
(***************************************************************************)
(* Design check of Sshd: clients come, authenticate, run a command, feed it *)
(* and leave or misbehave in any order. Nothing runs for a client that did  *)
(* not prove its key, what one does changes nothing for another, and every  *)
(* command of a client that stays gets its result. Also: Args against a     *)
(* declarative definition for every short command line.                    *)
(***************************************************************************)
EXTENDS Sshd

CONSTANTS Clients, MaxIn
VARIABLES cl, done
vars == <<cl, done>>

Commands == {B("probe c x=3"), B("probe"), B(" "), B("no"), B("probe x=5 c")}
Hows == {"good", "bad-s", "probe", "none"}

Init == cl = <<>> /\ done = <<>>
Set(c, k) == cl' = (c :> k) @@ cl
In(ph) == {c \in DOMAIN cl : cl[c].ph = ph}

Connect == \E c \in Clients \ DOMAIN cl, u \in {"full", "ecdh"} : Set(c, NewClient(u)) /\ UNCHANGED done
Auth == \E c \in In("auth"), h \in Hows : Set(c, AfterAuth(cl[c], h)) /\ UNCHANGED done
Open == \E c \in In("open") : 1 \notin DOMAIN cl[c].chans /\ Set(c, AfterOpen(cl[c], 1, 9)) /\ UNCHANGED done
Has(c, st) == 1 \in DOMAIN cl[c].chans /\ cl[c].chans[1].st = st
Run == \E c \in In("open"), cmd \in Commands : Has(c, "open") /\ Set(c, AfterRequest(cl[c], 1, "exec", cmd, "probe")) /\ UNCHANGED done
Feed == \E c \in In("open") : Has(c, "run") /\ cl[c].chans[1].fed < MaxIn /\ ~cl[c].chans[1].eof /\ Set(c, AfterData(cl[c], 1, 1)) /\ UNCHANGED done
Eof == \E c \in In("open") : Has(c, "run") /\ ~cl[c].chans[1].eof /\ Set(c, AfterEof(cl[c], 1)) /\ UNCHANGED done
Finish == \E c \in In("open") : Has(c, "run") /\ WillEnd(cl[c], 1) /\ Set(c, AfterClose(cl[c], 1)) /\ done' = (c :> ResultOf(cl[c].chans[1])) @@ done
Evil == \E c \in DOMAIN cl : cl[c].ph \notin {"evil", "gone"} /\ \E p \in {"evil", "gone"} : Set(c, [cl[c] EXCEPT !.ph = p]) /\ UNCHANGED done
Next == Connect \/ Auth \/ Open \/ Run \/ Feed \/ Eof \/ Finish \/ Evil
Spec == Init /\ [][Next]_vars /\ WF_vars(Finish)

Gate == \A c \in DOMAIN cl : cl[c].chans # <<>> => cl[c].ph \in {"open", "evil", "gone"}
\* a step changes one client, and only results of that client
Isolated == [][\E c \in Clients : \A d \in Clients \ {c} :
                 /\ (d \in DOMAIN cl) = (d \in DOMAIN cl') /\ (d \in DOMAIN cl => cl'[d] = cl[d])
                 /\ (d \in DOMAIN done) = (d \in DOMAIN done') /\ (d \in DOMAIN done => done'[d] = done[d])]_vars
Results == \A c \in DOMAIN done :
  LET ch == cl[c].chans[1] IN
  /\ ch.st = "closed"
  /\ done[c].status = (CASE ch.cmd = B("probe c x=3") -> 3 [] ch.cmd = B("probe") -> 7 [] ch.cmd = B("probe x=5 c") -> 5)
  /\ (ch.cmd = B("probe x=5 c")) = (\A i \in 1..Len(done[c].out) : done[c].out[i].op # "I")
Waits(c) == IF c \in DOMAIN cl THEN cl[c].ph = "open" /\ Has(c, "run") /\ WillEnd(cl[c], 1) ELSE FALSE
Served == \A c \in Clients : [](Waits(c) => <>~Waits(c))
NeverAll == DOMAIN done # Clients

-----------------------------------------------------------------------------
Alphabet == {97, 98, 32, 9}
Short == UNION {[1..n -> Alphabet] : n \in 0..6}
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))
Word(b, i, j) == /\ i <= j /\ \A k \in i..j : b[k] \notin Whitespace
                 /\ (i = 1 \/ b[i - 1] \in Whitespace) /\ (j = Len(b) \/ b[j + 1] \in Whitespace)
ASSUME ArgsRight ==
  \A b \in Short :
    LET a == Args(b)
        w == {<<i, j>> \in (1..Len(b)) \X (1..Len(b)) : Word(b, i, j)}
    IN /\ Len(a) = Cardinality(w)
       /\ Flat(a) = SelectSeq(b, LAMBDA x : x \notin Whitespace)
       /\ \A p \in w : a[Cardinality({q \in w : q[1] <= p[1]})] = SubSeq(b, p[1], p[2])
=============================================================================
